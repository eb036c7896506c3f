"""The command line tool: trace reader, data field, pipeline, results, configuration, output file."""
from core import *
from spec import *
import re
import ri

D = 'DRAMPower::'
CN = D + 'DRAMPowerCLI::'
HEX = CN + 'util::hexStringToUint8Array'
FROM, NEEDS = D + 'CmdTypeUtil::from_string', D + 'CmdTypeUtil::needs_data'
GET = 'csv::CSVField::get'
W64 = ('unsigned long', 'unsigned long long', 'uint64_t', 'size_t')
NPOS = N(2 ** 64 - 1)


def caught(t):
    return t[0] == 'pred' and t[1] == 'caught'


def preds(t):
    return [x for x in subterms(t) if caught(x)]


def handled(sm):
    """[(event, handler types of the enclosing try blocks)] in program order"""
    out, st = [], []
    for e in sm.events:
        if e.kind == 'try':
            st.append(e.d['types'])
        elif e.kind == 'endtry':
            if st:
                st.pop()
        else:
            out.append((e, [t for l in st for t in l]))
    return out


def catches_all(types):
    return any(isinstance(t, str) and (t == '...' or t == 'std::exception') or isinstance(t, dict) and t.get('t') == 'std::exception' for t in types)


# ---------------------------------------------------------------------------------------------------------- trace
def fields(t):
    """the reading of field k of the row of the iteration becomes ('fld', k, type)"""
    def f(x):
        if x[0] == 'c' and x[1].startswith('csv::CSVField::get') and isinstance(x[2], tuple) and x[2][0] == 'c' and x[2][1] == 'csv::CSVRow::operator[]':
            m = re.match(r'csv::CSVField::get<(.*)>$', x[1])
            ty = m.group(1) if m else 'text'
            ty = 'u64' if ty in W64 else 'text' if 'basic_string' in ty else ty
            return ('s', 'field %s as %s' % (show(x[2][3][0]), ty)) if num(x[2][3][0]) is not None else None
        if x[0] == 'c' and x[1] == 'csv::CSVRow::size':
            return ('s', 'fields of the row')
        if x[0] == 'c' and x[1] in (FROM, NEEDS) and len(x[3]) == 1:
            return ('c', x[1], None, x[3])
        if x[0] == 'c' and x[1] == HEX:
            return ('s', 'bytes of ' + show(x[3][0]))
        if x[0] == 'out' and x[1] == HEX:
            return ('s', 'number of bytes of ' + show(x[4][0]))
        return None
    return rewrite(t, f)


def fld(k, ty='u64'):
    return S('field %d as %s' % (k, ty))


def trace(ctx):
    fn = ctx.fn(CN + 'parse_command_list')
    where = loc(fn)
    sm = ctx.run(fn, [A0, A1], bound=frozenset([HEX, FROM, NEEDS]), outs=frozenset([HEX]), prim=lambda q: q == GET)
    cmd = T(('c', FROM, None, (fld(1, 'text').t,)))
    nd = ~(X(('c', NEEDS, None, (cmd,))) == 0)
    nf = S('fields of the row')
    bad = (nf < 7) | (nd & (nf < 8))

    # the file and its format
    rd = [x for e in sm.events for x in subterms(('t',) + tuple(v for v in e.d.values() if isinstance(v, tuple) and v and isinstance(v[0], str))) if x[0] == 'new' and x[1] == 'csv::CSVReader']
    rd = list(dict.fromkeys(rd))
    if len(rd) != 1:
        ctx.ob('reader', None, '%d readers of the trace file found' % len(rd), where)
        return dict(explain='the trace reader could not be identified', floor=10)
    ctx.ob('reader: the file given', rd[0][2][0] == A0.t, 'reads %s' % show(rd[0][2][0]), where)
    fm, t = {}, rd[0][2][1] if len(rd[0][2]) > 1 else ('undef',)
    while t[0] == 'm':
        fm[t[1].rsplit('::', 1)[1]] = t[3]
        t = t[2]
    ctx.ob('reader: the first line is a command, not a header', 'no_header' in fm and 'header_row' not in fm, 'format calls: %s' % ', '.join(fm), where)
    trim = {int(num(x)) for a in fm.get('trim', ()) for x in (a[1] if a[0] == 'list' else ()) if num(x) is not None}
    ctx.ob('reader: blanks around a field are ignored', {32, 9} <= trim or None if 'trim' in fm and not trim else {32, 9} <= trim, 'trimmed characters: %s' % sorted(trim), where)
    ctx.ob('reader: no character changes its meaning', trim <= {32, 9, 10, 13} and not set(fm) - {'no_header', 'trim', 'variable_columns', 'delimiter'} and all(num(x) == 44 for x in fm.get('delimiter', ())), 'format calls: %s' % ', '.join(fm), where)

    # one entry per line
    dom = ('rng', ZERO, ('size', rd[0]))
    ev = [e for e in sm.events if e.kind == 'mut' and e.d['loc'] == A1.t]
    ctx.ob('entries are appended to the list', all(e.d['method'] in ('push_back', 'emplace_back') for e in ev) and bool(ev), 'operations on the list: %s' % ', '.join(e.d['method'] for e in ev), where)
    ev = [e for e in ev if e.d['method'] in ('push_back', 'emplace_back')]
    lv = {tuple(e.loops()) for e in ev}
    ok = lv == {(('loop', ('ix', 0), dom),)}
    ctx.ob('entries: one pass over all lines in order', ok or None if any(len(l) == 1 for l in lv) and not ok else ok, 'loops: %s' % [show(l[0][2]) if l else '' for l in lv], where)
    calm = lambda t: rewrite(t, lambda x: FALSE if caught(x) else None)
    gs = [calm(fields(e.guard())) for e in ev]
    ctx.same('entry: exactly the well-formed lines give one', or_(*gs), ~bad, where)
    for i in range(len(gs)):
        for j in range(i):
            ctx.same('entry: a line gives one entry, not both %d and %d' % (j, i), and_(gs[i], gs[j]), False, where)

    def comp(e, path):
        a = e.d['args']
        if len(a) == 2:
            v, path = a[0 if path[0] == 'first' else 1], path[1:]
        else:
            v = a[0]
        for p in path:
            v = sm.eng.project(v, ('f', p))
        return calm(fields(v))
    tc = ('first', 'targetCoordinate')
    want = {('first', 'timestamp'): fld(0), ('first', 'type'): X(cmd), tc + ('rank',): fld(2), tc + ('bankGroup',): fld(3), tc + ('bank',): fld(4), tc + ('row',): fld(5), tc + ('column',): fld(6),
            ('first', 'data'): If(nd, S('bytes of field 7 as text'), ('null',)), ('first', 'sz_bits'): If(nd, S('number of bytes of field 7 as text') * 8, 0), ('second',): If(nd, S('bytes of field 7 as text'), ('null',))}
    for p, w in want.items():
        if ev:
            v = comp(ev[-1], p)
            for e, g in list(zip(ev, gs))[-2::-1]:
                v = ite(g, comp(e, p), v)
            ctx.same('entry ' + '.'.join(p[1:] if p[0] == 'first' else ('owned buffer',)), v, w, where, [or_(*gs)])

    # failure is reported, never thrown; "some line is bad" is decided for one arbitrary line
    ret = rewrite(fields(sm.ret), lambda x: x[4] if x[0] == 'pred' and x[1] == 'any' and x[3] == fields(dom) else None)
    ctx.same('result: true exactly when every line is well-formed', calm(ret), ~bad, where)
    for x in preds(ret):
        r = rewrite(ret, lambda y: TRUE if y == x else FALSE if caught(y) else None)
        w = FALSE if not mentions(x, lambda y: y[0] == 'ix') else not_(or_(bad.t, nd.t))
        ctx.same('result: false after an exception (%s)' % show(x), and_(r, not_(w)), False, where)
    for e, types in handled(sm):
        if e.kind == 'call' and e.d['q'] in (GET, HEX, 'csv::CSVField::get_sv', 'csv::CSVRow::operator[]') or e.kind == 'call' and e.d['q'] == 'ctor:csv::CSVReader':
            k = e.d['q'] + (' of field %s' % show(e.d['args'][0]) if e.d['q'].endswith('[]') else '')
            if e.d['q'] in (GET, HEX, 'ctor:csv::CSVReader'):
                ctx.ob('malformed input is reported: ' + k, catches_all(types), 'may throw outside a block that reports failure', '%s:%s' % (where.split(':')[0], e.line) if hasattr(e, 'line') else where)
    ctx.effects('trace', sm, {}, where, ignore=[A1])
    return dict(explain='Dataflow summary (value numbering, branches joined, the loop over the lines of the file summarised per iteration) of parse_command_list with the CSV library, the command lookup and the decoding of the data field kept as calls. For one arbitrary line: the condition under which an entry is appended, every part of the entry and the reported result are compared with the documented column order.',
                assumptions=['csv.hpp (third party) delivers the fields of each line in order and converts a field exactly or throws'], floor=26)


# ------------------------------------------------------------------------------------------------------- data field
DIGITS = set('0123456789abcdefABCDEF')


def chars(t):
    """substrings and comparisons of strings in terms of the characters of the whole string"""
    def base(s):
        """(string, offset, length or None for the rest)"""
        if s[0] == 'c' and s[1] in ('std::basic_string_view::substr', 'std::basic_string::substr'):
            b = base(s[2])
            a = s[3]
            o = a[0] if a else ZERO
            n = a[1] if len(a) > 1 and a[1] != NPOS else None
            return b[0], add(b[1], o), n
        if s[0] == 'c' and s[1] in ('ctor:std::basic_string', 'ctor:std::basic_string_view', 'std::basic_string::operator basic_string_view') and (s[3] or s[2]):
            return base(s[3][0] if s[3] else s[2])
        return s, ZERO, None

    def at(s, o, k):
        return ('i', s, add(o, N(k)))

    def same(s, lit):
        b, o, n = base(s)
        if n is not None and num(n) != len(lit):
            return None
        if n is None:
            return None
        return and_(not_(lt(('size', b), add(o, n))), *[eq(at(b, o, k), N(ord(c))) for k, c in enumerate(lit)])

    def split(x, f):
        """apply f below the choices of a string"""
        if x[0] == 'ite':
            a, b = split(x[2], f), split(x[3], f)
            return None if a is None or b is None else ite(x[1], a, b)
        return f(x)

    def f(x):
        if x[0] == 'eq':
            for s, l in ((x[1], x[2]), (x[2], x[1])):
                if l[0] == 'str':
                    return split(s, lambda y: same(y, l[1]))
                if l == NPOS:
                    return split(s, lambda y: ('pred',) + y[1:2] + y[3] if y[0] == 'c' and y[1] == 'text::only digits from' else None)
        if x[0] == 'c' and x[1].endswith('::substr') and x[2][0] == 'ite':
            return ite(x[2][1], f(('c', x[1], x[2][2], x[3])) or ('c', x[1], x[2][2], x[3]), f(('c', x[1], x[2][3], x[3])) or ('c', x[1], x[2][3], x[3]))
        if x[0] == 'size':
            def sz(y):
                b, o, n = base(y)
                return sub(('size', b), o) if n is None else n
            return split(x[1], sz)
        if x[0] == 'c' and x[1] in ('std::stoi', 'std::stol', 'std::stoul', 'std::stoull', 'std::stoll'):
            def hx(y):
                b, o, n = base(y)
                return ('c', 'text::number base %s of %s characters' % (show(x[3][2]) if len(x[3]) > 2 else 10, show(n) if n is not None else 'all'), None, (b, o))
            return split(x[3][0], hx)
        if x[0] == 'c' and x[1] in ('std::basic_string::find_first_not_of', 'std::basic_string_view::find_first_not_of') and x[3] and x[3][0][0] == 'str' and set(x[3][0][1]) == DIGITS and (len(x[3]) < 2 or x[3][1] == ZERO):
            def nh(y):
                b, o, n = base(y)
                return ('c', 'text::only digits from', None, (b, o)) if n is None else None
            return split(x[2], nh)
        return None
    return rewrite(t, f)


def hexdata(ctx):
    fn = ctx.fn(HEX)
    where = loc(fn)
    sm = ctx.run(fn, [A0, A1])
    n = X(('size', A0.t))
    pre = (n >= 2) & (A0[0] == 48) & ((A0[1] == 120) | (A0[1] == 88))
    only = lambda o: ('pred', 'text::only digits from', A0.t, N(o))
    valid = If(pre, only(2), only(0))
    count = If(pre, n // 2 - 1, n // 2)
    odd = X(('tb', n.t, ZERO))
    good = [~odd, valid]
    ctx.throws('malformed data is refused', sm, odd | ~valid, where, rw=chars)
    ctx.same('number of bytes', chars(sm.get(A1.t)), count, where, good)
    r = sm.ret
    al = r[0] == 'c' and r[1] == 'std::make_unique' and len(r[3]) == 1
    ctx.ob('a buffer is returned', al or None, 'returns %s' % show(r)[:200], where)
    if al:
        ctx.same('size of the buffer', chars(r[3][0]), count, where, good)
    k = S('k')
    e = chars(rewrite(sm.get(('i', ('d', r), k.t)), lambda x: S('unset').t if x == ('i', ('d', r), k.t) else None))
    hx = lambda o: ('c', 'text::number base 16 of 2 characters', None, (A0.t, T(k * 2 + o)))
    ctx.same('byte k is the number of digits 2k and 2k+1', e, X(('trunc', 8, T(If(pre, hx(2), hx(0))))), where, good + [k < count, k >= 0])
    ctx.same('nothing is written outside the buffer', e, S('unset'), where, good + [(k >= count) | (k < 0)])
    ctx.effects('data field', sm, {}, where, ignore=[A1, X(('d', r))])
    return dict(explain='Dataflow summary (value numbering, branches joined, the loop over the bytes summarised for an arbitrary byte) of the decoding of the data field; substrings are expressed by the characters of the field and compared with the required character positions.',
                assumptions=['std::stoi converts two hexadecimal digits as the C++ standard requires'], floor=6)


# ------------------------------------------------------------------------------------------------------- output file
V = 'validators::'
STATE_Q = ('std::basic_ios::good', 'std::basic_ios::operator bool', 'std::basic_ios::fail', 'std::basic_ios::operator!', 'std::basic_ios::bad')
FSQ = {'is_symlink': 'link', 'is_regular_file': 'file', 'is_directory': 'directory', 'exists': 'exists'}


def paths(t):
    """file system queries as predicates of the path they ask; a path and its text are the same"""
    def f(x):
        if x[0] == 'str':
            return ('s', 'error') if x[1] else ('s', 'accepted')
        if x == ('list', ()):
            return ('s', 'accepted')
        if x[0] == 'c':
            q, o, a = x[1], x[2], x[3]
            if q in ('ctor:std::filesystem::path', 'ctor:std::basic_string') and a:
                return a[0]
            if q in ('std::filesystem::path::string', 'std::filesystem::path::native', 'std::filesystem::path::c_str', 'std::filesystem::path::generic_string') and not a:
                return o
            if q.startswith('std::filesystem::') and q[17:] in FSQ and a and a[0][0] == 'c' and a[0][1] in ('std::filesystem::status', 'std::filesystem::symlink_status') and a[0][3]:
                p, k = a[0][3][0], FSQ[q[17:]]
                if a[0][1].endswith('::status'):
                    return ZERO if k == 'link' else ite(('pred', k, p), ONE, ZERO)
                ln = ('pred', 'link', p)
                return ite(ln, ONE, ZERO) if k == 'link' else ite(or_(ln, ('pred', k, p)) if k == 'exists' else and_(not_(ln), ('pred', k, p)), ONE, ZERO)
            if q.startswith('std::filesystem::') and q[17:] in FSQ and a:
                return ite(('pred', FSQ[q[17:]], a[0]), ONE, ZERO)
            if q == 'std::filesystem::read_symlink':
                return ('c', 'path::target', None, a[:1])
            if q == 'std::filesystem::path::parent_path':
                return ('c', 'path::parent', None, (o,))
            if q in ('std::filesystem::path::is_relative', 'std::filesystem::path::is_absolute'):
                r = ('pred', 'relative', o)
                return ite(r, ONE, ZERO) if q.endswith('relative') else ite(r, ZERO, ONE)
            if q == 'std::filesystem::path::empty':
                return ite(('pred', 'empty', o), ONE, ZERO)
            if q == 'std::filesystem::current_path' and not a:
                return ('s', 'current directory')
            if q == 'std::filesystem::operator/' and len(a) == 2:
                return ('c', 'path::join', None, a)
            if q.startswith('std::basic_ofstream::is_open'):
                return ite(('pred', 'opened'), ONE, ZERO)
            if q in STATE_Q[:2]:
                return ite(('pred', 'good'), ONE, ZERO)
            if q in STATE_Q[2:]:
                return ite(('pred', 'good'), ZERO, ONE)
        if x[0] == 'eq':
            for u, v in (x[1:], x[:0:-1]):
                n = v[2] if v[0] == 'enum' else num(v)
                if u[0] == 'c' and u[1] == 'std::filesystem::file_status::type' and u[2] is not None and u[2][0] == 'c' and u[2][3] and n in (1, 2, 3, -1):
                    p, ln = u[2][3][0], ('pred', 'link', u[2][3][0])
                    if u[2][1] == 'std::filesystem::status':
                        return {1: ('pred', 'file', p), 2: ('pred', 'directory', p), 3: FALSE, -1: not_(('pred', 'exists', p))}[n]
                    if u[2][1] == 'std::filesystem::symlink_status':
                        return {1: and_(not_(ln), ('pred', 'file', p)), 2: and_(not_(ln), ('pred', 'directory', p)), 3: ln, -1: and_(not_(ln), not_(('pred', 'exists', p)))}[n]
        if x[0] == 'ite' and x[1] == ('pred', 'relative', x[3]) and x[2][0] == 'c' and x[2][1] == 'path::join' and x[2][3][1] == x[3]:
            return x[2]
        return None
    return rewrite(t, f)


def fsp(n, p):
    return X(('pred', n, T(p)))


def sane(p):
    """what holds of every path"""
    e, r, d = (fsp(n, p) for n in ('exists', 'file', 'directory'))
    return [~r | e, ~d | e, ~(r & d)]


def output(ctx):
    ERR, OK = S('error'), S('accepted')
    RES, CRE = V + 'resolve_symlink', V + 'createFileInParentDirectory'
    # the validator itself
    fns = [f for f in ctx.fns_of(r'^validators::EnsureFileExists_t::EnsureFileExists_t.*operator\(\)$')]
    if len(fns) == 1:
        fn = fns[0]
        where = loc(fn)
        sm = ctx.run(fn, [A0], bound=frozenset([RES, CRE]))
        calm = lambda t: paths(rewrite(t, lambda x: FALSE if caught(x) else None))
        ret, out = calm(sm.ret), calm(sm.get(A0.t))
        rc = {x for t in (ret, out) for x in subterms(t) if x[0] == 'c' and x[1] == RES}
        ctx.ob('a link is followed once', len(rc) == 1 or None, '%d different calls of resolve_symlink' % len(rc), where)
        if len(rc) == 1:
            r = X(next(iter(rc)))
            ctx.same('the path given is followed', r.t[3][0], A0, where)
            ctx.ob('a link is followed at all', num(r.t[3][1]) is None and None or num(r.t[3][1]) >= 1, 'at most %s steps' % show(r.t[3][1]), where)
            ty = val(r).type
            en = {n: [x for x in subterms(ret) if x[0] == 'enum' and show(x).endswith(n)] for n in ('FILE', 'DIRECTORY', 'NOT_FOUND')}
            if all(en.values()):
                is_ = {n: (ty == X(l[0])) for n, l in en.items()}
                L, F, E = fsp('link', A0), fsp('file', A0), fsp('exists', A0)
                cre = lambda p: X(('c', CRE, None, (T(p),)))
                ass = [is_['FILE'] | is_['DIRECTORY'] | is_['NOT_FOUND']] + sane(A0)
                want = If(L, If(has(r), If(is_['FILE'], OK, If(is_['DIRECTORY'], ERR, cre(val(r).path))), ERR), If(F, OK, If(E, ERR, cre(A0))))
                ctx.same('accepted: an existing file, or one that can be created', ret, want, where, ass)
                fine = [~(L & ~has(r)), ~(L & is_['DIRECTORY']), ~(~L & ~F & E)]
                ctx.same('the path used later is the file itself', out, If(L, val(r).path, A0), where, ass + fine)
            else:
                ctx.ob('outcomes', None, 'the outcomes of following a link were not found', where)
        # a file system that cannot answer (cycle of links, missing permission) is an error, not an exception
        safe = lambda t: catches_all(t) or any('filesystem_error' in str(x) or 'system_error' in str(x) for x in t)
        for e, types in handled(sm):
            if e.kind == 'call' and (e.d['q'] in (RES, CRE) or e.d['q'].startswith('std::filesystem::') and e.d['q'][17:] in FSQ and len(e.d['args']) == 1):
                ctx.ob('file system errors are reported: %s of %s' % (e.d['q'].rsplit('::', 1)[1], show(paths(e.d['args'][0]))[:40]), safe(types), 'may throw out of the validation', where)
        for x in preds(sm.ret):
            r = rewrite(paths(sm.ret), lambda y: TRUE if y == x else FALSE if caught(y) else None)
            ctx.same('a file system error is refused (%s)' % show(x)[:60], r, ERR, where)
    else:
        ctx.ob('validator', None, '%d validator functions found' % len(fns), '')
    # following a link
    fn = ctx.fn(RES)
    where = loc(fn)
    for n in (1, 2, 3):
        sm = ctx.run(fn, [A0, n], concrete=8)
        def res(p, k):
            if not k:
                return X(('none',))
            q = X(('c', 'path::join', None, (('c', 'path::parent', None, (p.t,)), ('c', 'path::target', None, (p.t,)))))
            out = lambda t: X(('some', ('agg', ('zero',), (((('f', 'type'),), ('s', t)), ((('f', 'path'),), q.t)))))
            return If(fsp('exists', q), If(fsp('file', q), out('FILE'), If(fsp('directory', q), out('DIRECTORY'), If(fsp('link', q), res(q, k - 1), X(('none',))))), out('NOT_FOUND'))
        got = rewrite(paths(sm.ret), lambda x: ('s', show(x)) if x[0] == 'enum' else None)
        ps, q = [], A0
        for i in range(n):
            q = X(('c', 'path::join', None, (('c', 'path::parent', None, (q.t,)), ('c', 'path::target', None, (q.t,)))))
            ps += sane(q)
        want = If(fsp('link', A0), res(A0, n), X(('none',)))
        ctx.same('link followed up to %d steps: found' % n, ('has', got), ('has', want.t), where, ps)
        for p in ('type', 'path'):
            ctx.same('link followed up to %d steps: %s' % (n, p), pick(got, p), pick(want.t, p), where, ps + [('has', want.t)])
    # creating the file
    fn = ctx.fn(CRE)
    where = loc(fn)
    sm = ctx.run(fn, [A0])
    par = X(('c', 'path::parent', None, (A0.t,)))
    par = If(X(('pred', 'empty', par.t)) & X(('pred', 'relative', A0.t)), S('current directory'), par)
    opened, good = X(('pred', 'opened')), X(('pred', 'good'))
    lift = lambda t: rewrite(t, lambda x: ite(x[2][1], x[:2] + (x[2][2],), x[:2] + (x[2][3],)) if x[0] == 'pred' and len(x) == 3 and x[2][0] == 'ite' else None)
    for c in (FALSE, TRUE):
        got = lift(paths(rewrite(sm.ret, lambda x: c if caught(x) else None)))
        want = If(X(lift(T(fsp('directory', par)))) & opened & good & (not c[1]), OK, ERR)
        ass = [lift(T(x)) for x in sane(par)] + [~good | opened]
        ctx.same('created%s: accepted exactly when it could be created in an existing directory' % (' (an operation fails)' if c[1] else ''), got, want, where, ass)
    op = [e for e in sm.events if e.kind == 'call' and e.d['q'] == 'std::basic_ofstream::is_open']
    ctx.ob('the file created is the one asked for', bool(op) and all(paths(e.d['objval'])[0] == 'c' and paths(e.d['objval'])[3][0] == A0.t for e in op) if op else None, 'opens %s' % ', '.join(show(e.d['objval'])[:100] for e in op), where)
    return dict(explain='Dataflow summaries (value numbering, branches joined, the link loop unrolled for up to 3 steps) of the output file validator with the file system queries as predicates of the path they ask, compared with the required decision and resulting path for every answer of the file system.',
                assumptions=['std::filesystem answers consistently during the validation'], floor=12)


def pick(t, p):
    """a part of an optional structure below choices"""
    if t[0] == 'ite':
        return ite(t[1], pick(t[2], p), pick(t[3], p))
    if t[0] == 'none':
        return ('s', 'nothing')
    if t[0] == 'some' and t[1][0] == 'agg':
        return dict((k[0][1], v) for k, v in t[1][2] if len(k) == 1).get(p, ('undef',))
    return ('f', t, p)


# ---------------------------------------------------------------------------------------------------------- pipeline
APP = 'CLI::App::'
STAGES = ('getConfig', 'parse_command_list', 'getMemory', 'runCommands', 'makeResult')


def option_of(t):
    """the names of the option that a chain of CLI11 calls configures"""
    while t[0] in ('d', 'lit', 'm', 'c'):
        if t[0] in ('d', 'lit'):
            t = t[1]
        elif t[1] == APP + 'add_option':
            a = t[3][0]
            return a[1] if a[0] == 'str' else None
        else:
            t = t[2] if t[0] == 'c' and t[2] is not None else t[2] if t[0] == 'm' else ('undef',)
    return None


def long_name(s):
    l = [x for x in (s or '').split(',') if x.startswith('--')]
    return l[0] if l else s


def stages(t):
    """option values, results of the stages and objects they deliver by name"""
    def f(x):
        if x[0] == 'out' and x[1] == APP + 'add_option':
            a = x[4][0]
            return ('s', 'option ' + (long_name(a[1]) if a[0] == 'str' else '?'))
        if x[0] == 'c' and x[1] in ('std::basic_string::operator basic_string_view', 'ctor:std::basic_string', 'ctor:std::basic_string_view', 'std::basic_string::c_str', 'ctor:std::filesystem::path'):
            return x[2] if x[2] is not None else x[3][0] if x[3] else None
        if x[0] == 'out' and x[1] == CN + 'getConfig':
            return ('s', 'configuration')
        if x[0] == 'out' and x[1] == CN + 'parse_command_list':
            return ('s', 'commands')
        if x[0] == 'c' and x[1].startswith(CN) and x[1][len(CN):] in STAGES:
            return ('s', 'result of ' + x[1][len(CN):])
        return None
    return rewrite(t, f)


def pipeline(ctx):
    fn = ctx.fn('main')
    where = loc(fn)
    sm = ctx.run(fn, [A0, A1], bound=frozenset([CN + x for x in STAGES] + ['spdlog::info', 'spdlog::error', 'spdlog::warn', 'spdlog::set_pattern']), outs=frozenset([CN + 'getConfig', CN + 'parse_command_list']))
    calls = [e for e in sm.events if e.kind == 'call']
    ok = {s: ~(S('result of ' + s) == 0) for s in STAGES}
    sr = {x for e in calls for x in preds(e.guard())} | set(preds(sm.ret))
    pe = [x for x in sr if show(x[2]).startswith('CLI::') or 'CLI::' in str(x[2])]
    stop = X(or_(*pe)) if pe else X(FALSE)

    # options
    opts = {}
    for e in calls:
        if e.d['q'] == APP + 'add_option':
            a = e.d['args'][0]
            if a[0] == 'str':
                opts[long_name(a[1])] = a[1].split(',')
    for n, s in (('--config', '-c'), ('--trace', '-t'), ('--memspec', '-m'), ('--json', '-j')):
        ctx.ob('option %s exists (short form %s)' % (n, s), n in opts and s in opts[n], 'options: %s' % ', '.join('/'.join(v) for v in opts.values()), where)
    req, chk = {}, {}
    for e in calls:
        if e.d['q'] in ('CLI::OptionBase::required', 'CLI::Option::required'):
            v = e.d['args'][0] if e.d['args'] else TRUE
            req[long_name(option_of(e.d['objval']))] = v != FALSE and v != ZERO
        if e.d['q'] == 'CLI::Option::check':
            chk.setdefault(long_name(option_of(e.d['objval'])), []).append(show(e.d['args'][0]))
    for n in ('--config', '--trace', '--memspec', '--json'):
        ctx.ob('option %s is %s' % (n, 'optional' if n == '--json' else 'required'), None if None in req and req.get(n, False) != (n != '--json') else req.get(n, False) == (n != '--json'), 'required: %s' % req, where)
        want = 'EnsureFileExists' if n == '--json' else 'ExistingFile'
        c = chk.get(n, [])
        ctx.ob('option %s is validated by %s' % (n, want), None if None in chk and not c else any(want in x for x in c), 'checks: %s' % [x[:80] for x in c], where)
    pa = [e for e in calls if e.d['q'] == APP + 'parse']
    ctx.ob('the arguments are parsed', len(pa) == 1 and stages(pa[0].d['args'][0]) == A0.t if pa else False, '%d calls of parse' % len(pa), where)
    if pa:
        i = sm.events.index(pa[0])
        late = [e for e in sm.events[i:] if e.kind == 'call' and e.d['q'] == APP + 'add_option']
        ctx.ob('all options are known before parsing', not late, '%d options added later' % len(late), where)
    # stages
    ev = {s: [e for e in calls if e.d['q'] == CN + s] for s in STAGES}
    cfg = S('configuration')
    dev, cmds = S('result of getMemory'), S('commands')
    args = {'getConfig': (S('option --config'), None), 'parse_command_list': (S('option --trace'), None), 'getMemory': (S('option --memspec'), cfg.simconfig), 'runCommands': (dev, cmds), 'makeResult': (S('option --json'), dev)}
    for s in STAGES:
        if not ctx.ob('stage %s: one call' % s, len(ev[s]) == 1 or None if len(ev[s]) else False, '%d calls' % len(ev[s]), where):
            continue
        e = ev[s][0]
        for k, w in enumerate(args[s]):
            if w is not None:
                g = stages(e.d['args'][k])
                ctx.same('stage %s: argument %d' % (s, k), g, w, where)
        g = stages(e.guard())
        if s == 'runCommands':
            ctx.same('the commands are run exactly when everything was read', g, ~stop & ok['getConfig'] & ok['parse_command_list'] & ok['getMemory'], where)
        elif s == 'makeResult':
            ctx.same('results are made exactly when all commands were run', g, ~stop & ok['getConfig'] & ok['parse_command_list'] & ok['getMemory'] & ok['runCommands'], where)
        else:
            ctx.same('stage %s: not after the arguments were refused' % s, and_(g, stop.t), False, where)
    # result
    ret = stages(sm.ret)
    free = rewrite(ret, lambda x: FALSE if x in pe else None)
    allok = and_(*[T(ok[s]) for s in STAGES])
    ctx.same('exit code 0 exactly when every stage succeeded', eq(free, ZERO), allok, where)
    if pe:
        ref = rewrite(ret, lambda x: TRUE if x in pe else None)
        ok_ = ref[0] == 'c' and ref[1] == APP + 'exit'
        ctx.ob('refused arguments and --help end with the exit code of the parser', ok_ or (None if mentions(ref, lambda x: x[0] == 'c' and x[1] == APP + 'exit') or ri.opaque(ref) else False), 'returns %s' % show(ref)[:300], where)
        if pa:
            t = [y for e, y in handled(sm) if e is pa[0]][0]
            ctx.ob('refused arguments are handled', any('CLI::' in str(x) or str(x) in ('std::exception', '...') for x in t), 'handlers: %s' % t, where)
    else:
        ctx.ob('refused arguments are handled', False if pa and not [y for e, y in handled(sm) if e is pa[0]][0] else None, 'no handler of parse errors', where)
    # running the commands
    fn = ctx.fn(CN + 'runCommands')
    where = loc(fn)
    DO = D + 'dram_base::doCommand'
    sm = ctx.run(fn, [A0, A1], bound=frozenset([DO]))
    ev = [e for e in sm.events if e.kind == 'call' and e.d['q'] == DO]
    ctx.ob('run: one call for each entry', len(ev) == 1 or None if ev else False, '%d calls' % len(ev), where)
    for e in ev[:1]:
        lp = e.loops()
        ctx.ob('run: all entries in order', len(lp) == 1 and lp[0][2] == ('rng', ZERO, ('size', A1.t)) or (None if len(lp) == 1 and (ri.opaque(lp[0][2]) or len(ev) > 1) else False), 'loops over %s' % [show(l[2]) for l in lp], where)
        calm = rewrite(e.guard(), lambda x: FALSE if caught(x) else None)
        ctx.same('run: no entry is left out', calm, True, where)
        ctx.same('run: the device given', e.d['objval'], X(('d', A0.t)), where)
        if lp:
            ctx.same('run: the command of the entry', e.d['args'][0], X(('f', ('i', A1.t, lp[0][1]), 'first')), where)
        t = [y for x, y in handled(sm) if x is e][0]
        ctx.ob('run: a command that is refused is reported', catches_all(t), 'handlers: %s' % t, where)
    ctx.same('run: success without an exception', rewrite(sm.ret, lambda x: FALSE if caught(x) else None), True, where)
    if preds(sm.ret):
        ctx.same('run: failure after an exception', rewrite(sm.ret, lambda x: TRUE if caught(x) else None), False, where)
    else:
        ctx.ob('run: failure after an exception', False if not ri.opaque(sm.ret) else None, 'returns %s' % show(sm.ret), where)
    ctx.effects('run', sm, {}, where)
    return dict(explain='Dataflow summary (value numbering, branches joined, parseArgs inlined) of main with the stages of the tool and the CLI11 library kept as calls: options and their validators, arguments of every stage, the condition under which each stage runs and the exit code are compared with the required pipeline; runCommands is summarised for an arbitrary entry.',
                assumptions=['CLI11 (third party) assigns the value of an option to the variable given and throws ParseError for refused arguments and --help'], floor=34)


# ---------------------------------------------------------------------------------------------------------- results
RES_BOUND = [D + x for x in ('energy_t::to_json', 'energy_t::total', 'energy_t::aggregated_bank_energy', 'interface_energy_info_t::to_json', 'interface_energy_info_t::total', 'dram_base::getCLIArchitectureConfig', 'dram_base::calcCoreEnergy', 'dram_base::calcInterfaceEnergy', 'dram_base::getLastCommandTime')]
LABELS = {
    'energy_t': {x: (x,) for x in ('E_bg_act_shared', 'E_PDNA', 'E_PDNP', 'E_sref', 'E_dsm', 'E_refab')},
    'energy_info_t': dict([(x, ('E_' + x.lower(),)) for x in ('ACT', 'PRE', 'BG_ACT', 'BG_PRE')] + [(x, ('E_' + x,)) for x in ('RD', 'WR', 'RDA', 'WRA')] + [('PRE_RDA', ('E_pre_RDA',)), ('PRE_WRA', ('E_pre_WRA',))] + [('REF_' + x, ('E_ref_' + x,)) for x in ('AB', 'PB', 'SB', '2B', 'DB')]),
    'interface_energy_info_t': {'Controller/dynamicEnergy': ('controller', 'dynamicEnergy'), 'Controller/staticEnergy': ('controller', 'staticEnergy'), 'DRAM/dynamicEnergy': ('dram', 'dynamicEnergy'), 'DRAM/staticEnergy': ('dram', 'staticEnergy'), 'Total': None},
}


def placeholders(text, args):
    """[(label, argument)] of a format string with automatic placeholders; None when their number does not agree"""
    parts = re.split(r'\{[^{}]*\}', text)
    if len(parts) - 1 != len(args):
        return None
    out = []
    for p, a in zip(parts, args):
        w = [x.strip() for x in re.findall(r'([A-Za-z_0-9]+)\s*:', p)]
        out.append((w, a))
    return out


def cells(ctx, key, entries, cfg, where, ordered):
    """every (rank, device, bank) is described once, at the index of its bank; entries: loops -> (index, {part: value})"""
    for R in (1, 2, 3):
        for Dv in (1, 2):
            for B in (1, 3):
                sub_ = lambda t, m: rewrite(t, lambda x: N({'rankCount': R, 'deviceCount': Dv, 'bankCount': B}[x[2]]) if x[0] == 'f' and x[1] == cfg and x[2] in ('rankCount', 'deviceCount', 'bankCount') else m.get(x))
                seen = {}
                order = []
                for lp, idx, parts in entries:
                    def go(k, m):
                        if k == len(lp):
                            i = num(sub_(idx, m))
                            vs = {p: num(sub_(v, m)) for p, v in parts.items()}
                            if i is None or any(v is None for v in vs.values()):
                                raise ri.Skip()
                            order.append(int(i))
                            for p, v in vs.items():
                                seen.setdefault(int(i), {}).setdefault(p, []).append(int(v))
                            return
                        _, ix, dom = lp[k]
                        lo, hi = (num(sub_(x, m)) for x in dom[1:3]) if dom[0] == 'rng' else (None, None)
                        if lo is None or hi is None or hi - lo > 40:
                            raise ri.Skip()
                        for v in range(int(lo), int(hi)):
                            go(k + 1, {**m, ix: N(v)})
                    try:
                        go(0, {})
                    except ri.Skip:
                        return ctx.ob(key, None, 'description of the banks not understood', where)
                want = {(r * Dv + d) * B + b: {'Rank': [r], 'Device': [d], 'Bank': [b]} for r in range(R) for d in range(Dv) for b in range(B)}
                if seen != want or ordered and order != sorted(want):
                    bad = [(i, seen.get(i), want.get(i)) for i in sorted(set(seen) | set(want)) if seen.get(i) != want.get(i)]
                    return ctx.ob(key, False, 'with %d ranks, %d devices, %d banks: %s' % (R, Dv, B, '; '.join('entry %d described by %s, required %s' % x for x in bad[:3]) or 'order %s' % order), where)
    return ctx.ob(key, True, 'every rank, device and bank', where)


def results(ctx):
    BD = frozenset(RES_BOUND + [CN + 'jsonFileResult', CN + 'stdoutResult', 'spdlog::info'])
    OUT = frozenset(x for x in RES_BOUND if x.endswith('to_json'))
    dev = X(('d', A1.t))
    call = lambda q, o, *a: ('c', D + q, T(o), tuple(T(x) for x in a))
    # which result is made
    fn = ctx.fn(CN + 'makeResult')
    where = loc(fn)
    sm = ctx.run(fn, [A0, A1], bound=BD, outs=OUT)
    core, itf = call('dram_base::calcCoreEnergy', dev, call('dram_base::getLastCommandTime', dev)), call('dram_base::calcInterfaceEnergy', dev, call('dram_base::getLastCommandTime', dev))
    js, so = ('c', CN + 'jsonFileResult', None, (T(val(A0)), A1.t, core, itf)), ('c', CN + 'stdoutResult', None, (A1.t, core, itf))
    plain = lambda t: rewrite(t, lambda x: x[2] if x[0] == 'c' and x[1] in ('std::optional::operator*', 'std::optional::value') and x[2] is not None else None)
    rs = {}
    for e in sm.events:
        if e.kind == 'call' and e.d['q'] in (CN + 'jsonFileResult', CN + 'stdoutResult'):
            rs.setdefault(e.d['q'], []).append(e)
    for q, w, g in ((CN + 'jsonFileResult', js, has(A0)), (CN + 'stdoutResult', so, ~has(A0))):
        l = rs.get(q, [])
        n = q.rsplit('::', 1)[1]
        ctx.ob('%s: one call' % n, len(l) == 1 or None if l else False, '%d calls' % len(l), where)
        for e in l[:1]:
            ctx.same('%s: called exactly when %s' % (n, 'a file is given' if n[0] == 'j' else 'no file is given'), e.guard(), g, where)
            for k, (x, y, d) in enumerate(zip(e.d['args'], w[3], ('file', 'device', 'core energy up to the last command', 'interface energy up to the last command')[4 - len(w[3]):] if n[0] == 'j' else ('device', 'core energy up to the last command', 'interface energy up to the last command'))):
                ctx.same('%s: %s' % (n, d), x, y, where)
    nm = lambda t: rewrite(t, lambda x: ('s', 'json written') if x[0] == 'c' and x[1] == CN + 'jsonFileResult' else ('s', 'text written') if x[0] == 'c' and x[1] == CN + 'stdoutResult' else None)
    ctx.same('success is reported from where the result was made', nm(sm.ret), If(has(A0), ~(S('json written') == 0), ~(S('text written') == 0)), where)

    # the JSON document
    fn = ctx.fn(CN + 'jsonFileResult')
    where = loc(fn)
    sm = ctx.run(fn, [A0, A1, A2, A3], bound=BD - {CN + 'jsonFileResult'}, outs=OUT)
    cfg = call('dram_base::getCLIArchitectureConfig', dev)
    C = X(cfg)
    dump = [e for e in sm.events if e.kind == 'call' and (e.d['q'] == 'nlohmann::basic_json::dump' or 'operator<<' in e.d['q'] and any('jnull' in show(a) for a in e.d['args']) and not any(mentions(a, lambda x: x[0] == 'c' and x[1] == 'nlohmann::basic_json::dump') for a in e.d['args']))]
    dump = [e for e in dump if e.d['q'].endswith('dump')] or dump
    if len(dump) != 1:
        ctx.ob('document', None if dump else False, '%d documents written' % len(dump), where)
    else:
        e = dump[0]
        doc = e.d['objval'] if e.d['q'].endswith('dump') else [a for a in e.d['args'] if 'jnull' in show(a)][0]
        tot = X(call('energy_t::total', A2)) + X(call('interface_energy_info_t::total', A3))
        for k, w in (('RankCount', C.rankCount), ('DeviceCount', C.deviceCount), ('BankCount', C.bankCount), ('TotalEnergy', tot)):
            v = _project(sm, doc, (('i', ('str', k)),))
            ctx.same('document: ' + k, v[1] if v[0] == 'json' else v, w, where)
        for k, q, o in (('CoreEnergy', 'energy_t::to_json', A2), ('InterfaceEnergy', 'interface_energy_info_t::to_json', A3)):
            v = _project(sm, doc, (('i', ('str', k)),))
            while v[0] == 'agg':
                v = v[1]
            ok = v[0] == 'out' and v[1] == D + q and v[3] == o.t
            ctx.ob('document: ' + k, ok or (None if ri.opaque(v) and not v[0] == 'out' else False), 'is %s' % show(v)[:200], where)
        ents = {}
        good = True
        for k, v in (doc[2] if doc[0] == 'agg' else ()):
            if k and k[0][0] == 'forall':
                _, path, ix, dom = k[0][:4]
                lp, dm = [('loop', ix, dom[:3])], dom
                for x, d in (dom[3] if len(dom) > 3 else ()):
                    lp.insert(0, ('loop', x, d))
                if len(path) == 4 and path[0] == ('i', ('str', 'CoreEnergy')) and path[1] == ('i', ('str', 'BankEnergy')) and path[3][1][0] == 'str':
                    ents.setdefault((tuple(lp), path[2][1]), {})[path[3][1][1]] = v[1] if v[0] == 'json' else v
                else:
                    good = False
        if good:
            cells(ctx, 'document: every bank entry names its rank, device and bank', [(list(l), i, p) for (l, i), p in ents.items()], cfg, where, False)
        else:
            ctx.ob('document: every bank entry names its rank, device and bank', None, 'document not understood', where)
        arr = lambda t: rewrite(t, lambda x: ONE if x[0] == 'c' and x[1] == 'nlohmann::basic_json::is_array' else T(C.rankCount * C.deviceCount * C.bankCount) if x[0] == 'c' and x[1] == 'nlohmann::basic_json::size' or x[0] == 'size' and 'BankEnergy' in show(x[1]) else None)
        opened = X(('pred', 'opened'))
        good_ = X(('pred', 'good'))
        got = paths(arr(sm.ret))
        ctx.same('success only when the file could be opened', and_(truth(got), not_(or_(opened.t, good_.t)), or_(not_(good_.t), opened.t)), False, where)
        # a stream that could not be opened is not good either
        asked = mentions(got, lambda x: x == opened.t)
        ctx.same('success exactly when the file was opened and written', ~(X(got) == 0), opened & good_ if asked else good_, where)
        wr = [x for x in sm.events if x.kind == 'call' and 'operator<<' in x.d['q'] and any(y == doc or mentions(y, lambda z: z == doc) for y in x.d['args'])]
        ctx.ob('the document is written', bool(wr), '%d write operations' % len(wr), where)
        for x in wr[:1]:
            ctx.same('the document is written whenever success is reported', and_(paths(arr(sm.ret)), not_(paths(arr(x.guard())))), False, where)
            st = [(y[3][0], y[3][1:]) for y in subterms(('t',) + tuple(x.d['args']) + ((x.d['objval'],) if isinstance(x.d.get('objval'), tuple) else ())) if y[0] == 'c' and y[1].startswith('ctor:std::basic_ofstream') and y[3]]
            st = st or [(y.d['args'][0], tuple(y.d['args'][1:])) for y in sm.events if y.kind == 'call' and y.d['q'] == 'std::basic_ofstream::open']
            ctx.ob('it is written to the file given', any(mentions(y, lambda z: z == A0.t) for y, m in st) if st else None, 'written to %s' % ', '.join(show(y)[:80] for y, m in st), where)
            fl = [m[0] for y, m in st if m and num(m[0]) is not None]
            ctx.ob('a former content is replaced', not any(int(num(y)) & 1 for y in fl) if fl else None, 'open mode %s' % ', '.join(show(y) for y in fl), where)
            asks = [k for k, y in enumerate(sm.events) if y.kind == 'call' and y.d['q'] in STATE_Q]
            ctx.ob('the success of writing is asked after writing', (asks[-1] > sm.events.index(wr[-1])) if asks else (None if ri.opaque(got) else False), 'state of the stream asked %d times' % len(asks), where)

    # the text
    fn = ctx.fn(CN + 'stdoutResult')
    where = loc(fn)
    sm = ctx.run(fn, [A0, A1, A2], bound=BD - {CN + 'stdoutResult'}, outs=OUT)
    cfg = call('dram_base::getCLIArchitectureConfig', X(('d', A0.t)))
    inf = [e for e in sm.events if e.kind == 'call' and e.d['q'] == 'spdlog::info']
    lines = []
    for e in inf:
        a = e.d['args']
        if a and a[0][0] == 'str':
            p = placeholders(a[0][1], a[1:])
            ctx.ob('text: placeholders of "%s"' % a[0][1].split('\n')[0][:40], p is not None, '%d arguments' % (len(a) - 1), where)
            lines.append((e, a[0][1], a[1:]))
    bank = [(e, a) for e, t, a in lines if e.loops()]
    ents = []
    for e, a in bank:
        if len(a) == 4 and a[3][0] == 'i' and a[3][1] == T(A1.bank_energy):
            lp = [('loop', x[1], x[2][:3]) for x in e.loops()]
            ents.append((lp, a[3][2], {'Rank': a[0], 'Device': a[1], 'Bank': a[2]}))
            ctx.same('text: bank lines are unconditional', e.guard(), True, where)
        else:
            ents = None
            break
    if ents is None or not inf:
        ctx.ob('text: one line for each rank, device and bank in order', None, 'lines not understood', where)
    else:
        cells(ctx, 'text: one line for each rank, device and bank in order', ents, cfg, where, True)
    once = [(e, t, a) for e, t, a in lines if not e.loops()]
    tot = X(call('energy_t::total', A1)) + X(call('interface_energy_info_t::total', A2))
    for name, w in (('cumulated bank energy', call('energy_t::aggregated_bank_energy', A1)), ('shared core energy', A1.t), ('interface energy', A2.t), ('total energy', tot.t)):
        hit = [(e, t) for e, t, a in once if list(a) == [w]]
        any_ = [a for e, t, a in once if a]
        ctx.ob('text: %s' % name, (len(hit) == 1 and hit[0][0].guard() == TRUE) or (None if any(ri.opaque(x) for a in any_ for x in a) else False), 'printed %d times; other values: %s' % (len(hit), '; '.join(show(x)[:60] for a in any_ for x in a)), where)
        for e, t in hit[:1]:
            key = {'cumulated bank energy': 'bank', 'shared core energy': 'shared', 'interface energy': 'interface', 'total energy': 'total'}[name]
            ctx.ob('text: %s is named' % name, key in t.lower(), 'text "%s"' % t, where)
    ctx.same('text: success', sm.ret, True, where)

    # the parts of a value
    for ty, want in LABELS.items():
        fns = [f for f in ctx.fns_of(r'^fmt::.*formatter<DRAMPower::%s>::format' % ty)]
        if not fns:
            ctx.ob('formatting of ' + ty, None, 'no formatter', '')
            continue
        fn = fns[0]
        where = loc(fn)
        sm = ctx.run(fn, [A0, A1], bound=frozenset(['fmt::format_to', D + 'interface_energy_info_t::total']))
        got, group, okp = {}, None, True
        for e in sm.events:
            if e.kind == 'call' and e.d['q'] == 'fmt::format_to':
                a = e.d['args']
                p = placeholders(a[1][1], a[2:]) if a[1][0] == 'str' else None
                if p is None or e.loops() or e.guard() != TRUE:
                    okp = None if a[1][0] != 'str' or e.loops() or e.guard() != TRUE else False
                    break
                for w, v in p:
                    if len(w) > 1:
                        group = w[0]
                    l = w[-1] if w else '?'
                    l = group + '/' + l if group and l not in ('Total',) else l
                    got.setdefault(l, []).append(v)
        ctx.ob('formatting of %s: placeholders' % ty, okp, '%d values' % sum(map(len, got.values())), where)
        if okp:
            for l, p in want.items():
                w = A0.t if p else call('interface_energy_info_t::total', A0)
                for x in p or ():
                    w = ('f', w, x)
                ctx.ob('formatting of %s: %s' % (ty, l), got.get(l) == [w], 'label %s shows %s' % (l, [show(x) for x in got.get(l, [])]), where)
            # nothing of the structure is left out
            if ty != 'interface_energy_info_t':
                mem = [f['n'] for f in ctx.rec(D + ty)['fields'] if f['t'].get('t') == 'double']
                miss = [m for m in mem if not any(v == ('f', A0.t, m) for l in got.values() for v in l)]
                ctx.ob('formatting of %s: no energy is left out' % ty, not miss, 'not shown: %s' % ', '.join(miss), where)
    return dict(explain='Dataflow summaries (value numbering, branches joined, the loops over ranks, devices and banks summarised per iteration) of the result functions of the tool: the JSON document, the printed lines, their indices and the labels of every energy are compared with the required report; index expressions are folded for all combinations of up to 3 ranks, 2 devices and 3 banks.',
                assumptions=['nlohmann::json, fmt and spdlog (third party) write the values given'], floor=60)


def _project(sm, t, path):
    for p in path:
        hit = [v for k, v in t[2] if k == (p,)] if t[0] == 'agg' else []
        t = hit[0] if len(hit) == 1 else sm.eng.project(t, p)
    return t


# ----------------------------------------------------------------------------------------------------- configuration
STDS = ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')


def setup(ctx):
    fn = ctx.fn(CN + 'getConfig')
    where = loc(fn)
    sm = ctx.run(fn, [A0, A1], bound=frozenset(['spdlog::error', 'spdlog::info', 'spdlog::warn']))
    pr = [e for e in sm.events if e.kind == 'call' and e.d['q'] == 'nlohmann::basic_json::parse']
    ctx.ob('configuration: one document is read', len(pr) == 1 or None, '%d calls of parse' % len(pr), where)
    for e in pr[:1]:
        a = e.d['args']
        src = [x for x in subterms(a[0]) if x[0] == 'c' and x[1].startswith('ctor:std::basic_ifstream')]
        ctx.ob('configuration: the file given', any(mentions(x, lambda y: y == A0.t) for x in src) if src else None, 'reads %s' % show(a[0])[:100], where)
        ctx.ob('configuration: comments are accepted', len(a) > 3 and a[3] in (TRUE, ONE) or (None if len(a) > 3 and a[3] not in (FALSE, ZERO) else False), 'ignore_comments is %s' % (show(a[3]) if len(a) > 3 else 'absent'), where)
        ctx.ob('configuration: nothing is filtered', len(a) < 2 or a[1] in (('null',), ZERO), 'callback %s' % show(a[1]) if len(a) > 1 else '', where)

    def view(t):
        def f(x):
            if x[0] == 'c' and ('operator CLIConfig' in x[1] or x[1] == 'nlohmann::basic_json::get') and x[2] is not None and x[2][0] == 'c' and x[2][1] == 'nlohmann::basic_json::parse':
                return ('s', 'document')
            if x[0] == 'c' and (x[1].endswith('CLIConfig::from_json') or x[1] == 'json:get') and x[2] is not None and x[2][0] == 'c' and x[2][1] == 'nlohmann::basic_json::parse':
                return ('s', 'document')
            if x[0] == 'c' and x[1] in ('std::basic_ifstream::is_open', 'std::basic_ios::good', 'std::basic_ios::operator bool'):
                return ite(('pred', 'opened'), ONE, ZERO)
            if x[0] == 'c' and x[1] in ('std::basic_ios::fail', 'std::basic_ios::operator!', 'std::basic_ios::bad'):
                return ite(('pred', 'opened'), ZERO, ONE)
            return None
        return rewrite(t, f)
    calm = lambda t: view(rewrite(t, lambda x: FALSE if caught(x) else None))
    d = S('document')
    use = ~(d.useToggleRate == 0)
    opened = X(('pred', 'opened'))
    good = opened & (~use | has(d.simconfig.toggleRateDefinition))
    ctx.same('configuration: accepted exactly when readable and complete', calm(sm.ret), good, where)
    if preds(sm.ret):
        ctx.same('configuration: an exception is reported as failure', rewrite(sm.ret, lambda x: TRUE if caught(x) else None), False, where)
    ctx.same('configuration: toggling rates used exactly when asked for', has(X(calm(sm.get(T(A1.simconfig.toggleRateDefinition))))), use & has(d.simconfig.toggleRateDefinition), where, [good])
    ctx.same('configuration: the toggling rates of the document', calm(sm.get(T(A1.simconfig.toggleRateDefinition))), d.simconfig.toggleRateDefinition, where, [good, use])
    for f in ctx.rec(D + 'config::SimConfig')['fields']:
        if f['n'] != 'toggleRateDefinition':
            ctx.same('configuration: ' + f['n'], calm(sm.get(('f', T(A1.simconfig), f['n']))), ('f', T(d.simconfig), f['n']), where, [good])
    ctx.same('configuration: the choice itself', calm(sm.get(T(A1.useToggleRate))), d.useToggleRate, where, [good])
    for e, types in handled(sm):
        if e.kind == 'call' and (e.d['q'] == 'nlohmann::basic_json::parse' or 'operator CLIConfig' in e.d['q'] or e.d['q'] == 'nlohmann::basic_json::get'):
            ctx.ob('configuration: errors of %s are reported' % e.d['q'].rsplit('::', 1)[1], catches_all(types), 'handlers: %s' % types, where)
    ctx.effects('configuration', sm, {}, where, ignore=[A1])

    # the device
    fn = ctx.fn(CN + 'getMemory')
    where = loc(fn)
    PF = 'DRAMUtils::parse_memspec_from_file'
    sm = ctx.run(fn, [A0, A1], bound=frozenset([PF, 'std::make_unique']), alts=True)
    path = lambda t: rewrite(t, lambda x: x[3][0] if x[0] == 'c' and x[1] in ('ctor:std::filesystem::path', 'ctor:std::basic_string', 'ctor:std::basic_string_view') and x[3] else ('s', 'memspec') if x[0] == 'c' and x[1] == PF else None)
    pr = [e for e in sm.events if e.kind == 'call' and e.d['q'] == PF]
    ctx.ob('device: one specification is read', len(pr) == 1 or None if pr else None, '%d calls' % len(pr), where)
    for e in pr[:1]:
        ctx.same('device: the file given', path(e.d['args'][0]), A0, where)
    calm = lambda t: path(rewrite(t, lambda x: FALSE if caught(x) else None))
    mk = [e for e in sm.events if e.kind == 'call' and e.d['q'] == 'std::make_unique']
    alts = {x[2] for e in mk for x in subterms(e.guard()) if x[0] == 'pred' and x[1] == 'holds'} | {x[2] for x in subterms(sm.ret) if x[0] == 'pred' and x[1] == 'holds'}
    short = lambda s: s.rsplit('::', 1)[1] if s.rsplit('::', 1)[1].startswith('MemSpec') else s
    std = lambda s: short(s)[len('MemSpec'):]
    known = sorted(std(a) for a in alts)
    rest = [s for s in STDS if s not in known]
    if len(rest) != 1 or not mk:
        ctx.ob('device: alternatives', None, 'alternatives distinguished: %s' % ', '.join(known), where)
    else:
        alt = {std(a): a for a in alts}
        made = {}
        for e in mk:
            m = re.match(r'^DRAMPower::(\w+)$', e.d['ta'][0])
            made.setdefault(m.group(1) if m else '?', []).append(e)
        read = ~(S('memspec') == 0)
        for s in STDS:
            on = lambda t: rewrite(t, lambda x: (TRUE if std(x[2]) == s else FALSE) if x[0] == 'pred' and x[1] == 'holds' else None)
            for q, l in made.items():
                g = or_(*[on(calm(e.guard())) for e in l])
                ctx.same('device: a specification of %s %s %s' % (s, 'gives' if q == s else 'does not give', q), g, read if q == s else False, where)
            if s not in made:
                ctx.ob('device: a specification of %s gives %s' % (s, s), False, 'no device is made', where)
            for e in made.get(s, [])[:1]:
                ctx.same('device: %s gets the simulation settings' % s, path(e.d['args'][1]) if len(e.d['args']) > 1 else ('s', 'defaults'), A1, where)
                raw = path(sm.eng.project(e.d['args'][0], ('f', 'rawmemspec')))
                ok = raw[0] == 'f' and raw[2] == '$alt' and mentions(raw, lambda x: x == ('s', 'memspec'))
                ctx.ob('device: %s gets the specification read' % s, ok or (None if mentions(raw, lambda x: x == ('s', 'memspec')) or ri.opaque(raw) else False), 'made of %s' % show(raw)[:100], where)
            r = on(calm(sm.ret))
            nn = rewrite(r, lambda x: ('s', 'made') if x[0] == 'c' and x[1] == 'std::make_unique' else None)
            ctx.same('device: %s is returned' % s, nn, If(read, S('made'), ('null',)), where)
        if preds(sm.ret):
            ctx.same('device: an exception gives none', rewrite(sm.ret, lambda x: TRUE if caught(x) else None), ('null',), where)
        for e, types in handled(sm):
            if e.kind == 'call' and e.d['q'] in (PF, 'std::make_unique'):
                ctx.ob('device: errors of %s are reported' % (e.d['q'].rsplit('::', 1)[1] + (' ' + e.d['ta'][0] if 'make' in e.d['q'] else '')), catches_all(types), 'handlers: %s' % types, where)
    return dict(explain='Dataflow summaries (value numbering, branches joined, the visitor of the specification followed for every alternative of the variant) of the configuration and device set-up of the tool: the accepted configurations, the settings handed on and the device made for each alternative are compared with the required ones.',
                assumptions=['DRAMUtils and nlohmann::json (third party) parse their documents or throw'], floor=40)
