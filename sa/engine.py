"""Interprocedural effect/value summariser.

Walks the exported, resolved syntax of a function and computes, in one pass with joins (no path
enumeration, no solver, nothing executed):
  * the canonical term of every value (terms.py), flow-sensitively, through helpers, lambdas and temporaries;
  * the ordered list of effects (writes, container mutations, calls of non-inlined functions, throws), each
    with its control context (conditions and loop domains);
  * loops are summarised: induction variables become bound indices, accumulations become sums.
Anything that is not understood becomes an opaque ('unk', ...) term; rules treat such terms as "undecided"."""
import re
from terms import *
import terms as T


# parts of a recurrence that has a numeric meaning
SCALAR = {'n', 'b', 'enum', '+', 'den', 'not', 'and', 'or', 'eq', 'lt', 'ite', 'idiv', 'mod', 'pow2', 'shr', 'tb', 'bit&', 'bit|', 'bit^', 'popcount', 'bnot', 'trunc', 'ix', 's', 'f', 'i', 'd', 'has', 'size', 'sum', 'pred', 'recur', 'rv', 'rng', 'a', 'this', 'v', 'bits', 'ref'}


class Limit(Exception):
    pass


class Ev:
    __slots__ = ('kind', 'ctx', 'd', 'file', 'line', 'fn', 'stack')

    def __init__(s, kind, ctx, d, file, line, fn, stack):
        s.kind, s.ctx, s.d, s.file, s.line, s.fn, s.stack = kind, ctx, d, file, line, fn, stack

    def where(s):
        return '%s:%s in %s' % (s.file, s.line, s.fn)

    def guard(s):
        return and_(*[c for c in s.ctx if c[0] != 'loop'])

    def loops(s):
        return tuple(c for c in s.ctx if c[0] == 'loop')

    def __repr__(s):
        return '<%s %s | %s>' % (s.kind, {k: (show(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else ([show(x) for x in v] if isinstance(v, (tuple, list)) else v)) for k, v in s.d.items()}, ' & '.join(show(c) for c in s.ctx))


class Store(dict):
    """location -> value, with an index of the containing objects (pref), of the access shapes of array
    elements (shapes) and of the pattern writes (fa); the index may be a superset"""
    __slots__ = ('pref', 'shapes', 'fa')

    def __init__(s, src=()):
        s.pref, s.shapes, s.fa = set(), set(), set()
        if isinstance(src, Store):
            dict.__init__(s, src)
            s.pref |= src.pref
            s.shapes |= src.shapes
            s.fa |= src.fa
        else:
            dict.__init__(s)
            for k, v in (src.items() if isinstance(src, dict) else src):
                s[k] = v

    def __setitem__(s, k, v):
        if k not in s:
            if k[0] == 'forall':
                s.fa.add(k)
                p = k[1]
            else:
                p = k
                if k[0] in ('f', 'i'):
                    sh = shape(k)
                    if sh != k:
                        s.shapes.add(sh)
            while p[0] in ('f', 'i'):
                p = p[1]
                if p in s.pref:
                    break
                s.pref.add(p)
        dict.__setitem__(s, k, v)


class State:
    __slots__ = ('store', 'ctx')

    def __init__(s, store=None, ctx=()):
        s.store = store if isinstance(store, Store) else Store(store or ())
        s.ctx = ctx

    def copy(s):
        return State(Store(s.store), s.ctx)


class Frame:
    def __init__(s, fn, this=None):
        s.fn, s.this = fn, this
        s.bind = {}
        s.returns = []
        s.base = 0
        s.loops = []
        s.parent = None


def root(loc):
    while loc[0] in ('f', 'i', 'd'):
        loc = loc[1]
    return loc


def is_local(loc):
    while loc[0] in ('f', 'i'):
        loc = loc[1]
    return loc[0] == 'v'


@lru_cache(maxsize=200000)
def shape(loc):
    if loc[0] == 'f':
        return ('f', shape(loc[1]), loc[2])
    if loc[0] == 'i':
        return ('i', shape(loc[1]), '*')
    return loc


def indices(loc):
    r = []
    while loc[0] in ('f', 'i'):
        if loc[0] == 'i':
            r.append(loc[2])
        loc = loc[1]
    return r


@lru_cache(maxsize=200000)
def depth(loc):
    n = 0
    while loc[0] in ('f', 'i'):
        loc = loc[1]
        n += 1
    return n


def is_prefix(p, loc):
    d = depth(loc) - depth(p)
    if d <= 0:
        return False
    for _ in range(d):
        loc = loc[1]
    return loc == p


def relpath(p, loc):
    r = []
    while loc != p:
        r.append((loc[0], loc[2]))
        loc = loc[1]
    return tuple(reversed(r))


def strip_targs(q):
    out, d = [], 0
    i = 0
    while i < len(q):
        ch = q[i]
        if ch == '<' and not q[:i].endswith('operator') and not q[:i].endswith('operator<'):
            d += 1
        elif ch == '>' and d > 0:
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


CONTAINERS = ('std::vector', 'std::array', 'std::deque', 'std::bitset', 'std::initializer_list', 'std::basic_string', 'std::basic_string_view', 'std::map', 'std::unordered_map', 'std::set')
STREAMS = ('std::basic_istream', 'std::basic_ostream', 'std::basic_iostream', 'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_ios')
IDENT_FUNCS = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::launder'}
PURE_STD = ('std::', '__gnu_cxx::', '__builtin', 'nlohmann', 'fmt::', 'CLI::')


def unify(pat, t, ix):
    """the term m with pat[ix := m] == t (sound only up to the eq() the caller adds)"""
    if pat == ix:
        return t
    if pat[0] == t[0] and len(pat) == len(t) and pat[0] != '+':
        for a, b in zip(pat[1:], t[1:]):
            if isinstance(a, tuple) and isinstance(b, tuple) and mentions(a, lambda x: x == ix):
                return unify(a, b, ix)
    if pat[0] == '+' and t[0] not in ('it', 'addr', 'str', 'null'):
        d = sub(pat, ix)
        if not mentions(d, lambda x: x == ix):
            return sub(t, d)
        d = add(pat, ix)
        if not mentions(d, lambda x: x == ix):
            return sub(d, t)
    return None


def gathered(v):
    """a list built by appending one element per iteration: (index, domain, element, list before)"""
    if v[0] == 'loopv' and len(v) == 5 and v[2][0] == 'rng' and v[3][0] == 'm' and v[3][1] in ('push_back', 'emplace_back') and v[3][2] == ('lcv', 0) and len(v[3][3]) == 1 and not mentions(v[3][3][0], lambda y: y[0] == 'lcv'):
        return v[1], v[2], v[3][3][0], v[4]
    return None


class Engine:
    def __init__(self, facts, prim=None, max_depth=24, max_steps=400000, alias=True, unroll=16, evlocal=False, bound=(), concrete=0, outs=(), alts=False):
        self.concrete = concrete        # loops with decided conditions are executed for up to this many iterations
        self.tries = 0
        self.bound = frozenset(bound)  # functions recorded as calls without effect on the state
        self.alts = alts  # a visitor is followed for each alternative (otherwise for one that stands for all)
        self.outs = frozenset(outs)  # those of them that set the objects they get by reference
        self.evlocal = evlocal  # report writes to parts of local objects too
        self.alias = alias      # follow element writes into later reads of other elements
        self.unroll = unroll    # range-for over a literal list of at most this length is expanded
        self.F = facts
        self.prim = prim or (lambda q: False)
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.overriders = {}
        for f in facts.functions.values():
            for o in f.get('over') or []:
                self.overriders.setdefault(o, []).append(f['f'])
        self.byq = {}
        for f in facts.functions.values():
            self.byq.setdefault(f['q'], []).append(f)
        self.record = facts.records
        self.reset()

    def reset(self):
        self.events = []
        self.uid = 0
        self.steps = 0
        self.trial = 0
        self.stack = []
        self.nodes = []         # call sites of the functions on the stack
        self.frame = None
        self.gcache = {}
        self.inlined = set()
        self.idxlog = []
        self.sites = {}
        self.loopcache = {}
        self.dbg = []
        self.unknown = []
        self.unsigned = {}

    # ------------------------------------------------------------------ public
    def run(self, fn, args=None, this=('s', 'this'), pre=None):
        """summarise function object fn. args: list of terms (locations for reference/class parameters)."""
        self.reset()
        st = State()
        if pre:
            for k, v in pre.items():
                st.store[k] = v
        names = [p['n'] or 'arg%d' % i for i, p in enumerate(fn['params'])]
        if args is None:
            args = [('s', n) for n in names]
        rets, st2 = self.invoke(fn, this, [('L', a) for a in args], st, None)
        return Summary(self, fn, rets, st2)

    # ------------------------------------------------------------------ events
    def emit(self, kind, st, d, node):
        if self.trial:
            return
        f = self.frame.fn if self.frame else None
        self.events.append(Ev(kind, st.ctx, d, f and f['file'], (node or {}).get('l') or (f and f['line']), f and f['q'], tuple(x['q'] for x in self.stack)))

    def unk(self, why, node=None, *parts):
        self.unknown.append((why, self.frame.fn['q'] if self.frame else '', (node or {}).get('l')))
        return ('unk', why) + parts

    # ------------------------------------------------------------------ memory
    def new(self):
        self.uid += 1
        return ('v', self.uid)

    def read(self, st, loc):
        if loc[0] == 'ite':
            return ite(loc[1], self.read(st, loc[2]), self.read(st, loc[3]))
        s = st.store
        if loc in s:
            return self._snap(st, loc, s[loc])
        if self.alias and s.fa and loc[0] in ('i', 'f'):
            for k in s.fa:
                if k in s and depth(k[1]) > depth(loc):
                    p = k[1]
                    while depth(p) > depth(loc):
                        p = p[1]
                    if p != loc and shape(p) == shape(loc):
                        # part of the object is written through a pattern: view it through the common container
                        a, b, path = loc, p, []
                        while a != b:
                            path.append((a[0], a[2]))
                            a, b = a[1], b[1]
                        v = self.read(st, a)
                        for stp in reversed(path):
                            v = self.project(v, stp)
                        return v
        v = self._base(st, loc)
        return self._snap(st, loc, v)

    def _base(self, st, loc):
        s = st.store
        h = loc[0]
        viabase = False
        if h == 'f' or h == 'i':
            b = loc[1]
            if b in s or self._has_ancestor(s, b):
                viabase = True
                bv = s[b] if b in s else self._base(st, b)
                v = self.project(bv, (h, loc[2]))
            else:
                v = loc
        elif h == 'v':
            v = ('undef',)
        elif h == 'lit':
            v = loc[1]
        elif h == 'proj':
            v = loc
        else:
            v = loc
        # possibly aliasing earlier writes with the same access shape
        if self.alias and (s.fa or s.shapes) and any(x[0] == 'i' for x in self._chain(loc)):
            sh = shape(loc)
            for k, kv in (s.items() if sh in s.shapes else [(k, s[k]) for k in s.fa if k in s]):
                if k[0] == 'forall':
                    if shape(k[1]) == sh:
                        c, val = self._match_forall(k, loc, kv)
                        if c is not None:
                            v = ite(c, val, v)
                    elif depth(k[1]) < depth(loc) and not viabase:
                        # forall write to an ancestor object
                        p = loc
                        path = []
                        while depth(p) > depth(k[1]):
                            path.append((p[0], p[2]))
                            p = p[1]
                        if shape(p) == shape(k[1]):
                            c, val = self._match_forall(k, p, kv)
                            if c is not None:
                                for stp in reversed(path):
                                    val = self.project(val, stp)
                                v = ite(c, val, v)
                    continue
                if k != loc and shape(k) == sh:
                    c = and_(*[eq(a, b) for a, b in zip(indices(k), indices(loc))])
                    v = ite(c, kv, v)
        return v

    def _chain(self, loc):
        while loc[0] in ('f', 'i'):
            yield loc
            loc = loc[1]

    def _match_forall(self, k, loc, kv):
        _, pat, ix, dom = k
        return self._match_ix(indices(pat), indices(loc), ix, dom, kv)

    def _match_ix(self, pi, li, ix, dom, kv):
        """condition under which the element li is one of those written for some ix in dom, and the value"""
        if dom[0] == 'rng' and len(dom) > 3:
            # nested loops: indices of the outer ones first
            (jx, jd), rest = dom[3][-1], dom[3][:-1]
            m = None
            for a, b in zip(pi, li):
                if m is None and mentions(a, lambda x: x == jx):
                    m = unify(a, b, jx)
            if m is None or jd[0] != 'rng':
                return None, None
            sj = {jx: m}
            inner = ('rng', subst(dom[1], sj), subst(dom[2], sj))
            if rest:
                inner += (tuple((i, subst(d, sj)) for i, d in rest),)
            c, v = self._match_ix([subst(a, sj) for a in pi], li, ix, inner, subst(kv, sj))
            if c is None:
                return None, None
            return and_(not_(lt(m, jd[1], True)) if num(jd[1]) != 0 else TRUE, lt(m, jd[2], True), c), v
        m = None
        for a, b in zip(pi, li):
            if m is None and mentions(a, lambda x: x == ix):
                m = unify(a, b, ix)
        if m is None:
            # x[i / c][i % c]
            dv = [(a, b) for a, b in zip(pi, li) if a[0] == 'idiv' and a[1] == ix]
            md = [(a, b) for a, b in zip(pi, li) if a[0] == 'mod' and a[1] == ix]
            if len(dv) == 1 and len(md) == 1 and dv[0][0][2] == md[0][0][2]:
                m = add(mul(dv[0][0][2], dv[0][1]), md[0][1])
        if m is None:
            return None, None
        conds = [eq(subst(a, {ix: m}), b) for a, b in zip(pi, li)]
        if dom[0] == 'rng':
            conds.append(not_(lt(m, dom[1], True)) if num(dom[1]) != 0 else TRUE)
            conds.append(lt(m, dom[2], True))
        else:
            return None, None
        return and_(*conds), subst(kv, {ix: m})

    def _has_ancestor(self, s, loc):
        while True:
            if loc in s:
                return True
            if loc[0] in ('f', 'i'):
                if loc[0] == 'i' and shape(loc) in s.shapes:
                    return True
                if loc[0] == 'i' and s.fa:
                    return True
                loc = loc[1]
            else:
                return loc[0] in ('v', 'lit')

    def _snap(self, st, loc, base):
        if loc not in st.store.pref:
            return base
        subs = []
        for k, v in st.store.items():
            if k[0] == 'forall':
                if is_prefix(loc, k[1]):
                    subs.append(((('forall', relpath(loc, k[1]), k[2], k[3]),), v))
            elif is_prefix(loc, k):
                subs.append((relpath(loc, k), v))
        if not subs:
            return base
        return self.mkagg(base, subs)

    def mkagg(self, base, subs):
        d = {}
        if base[0] == 'agg':
            d.update(dict(base[2]))
            base = base[1]
        for p, v in subs:
            for k in [k for k in d if k[:len(p)] == p and k != p]:
                del d[k]
            d[p] = v
        return ('agg', base, tuple(d.items()))

    def project(self, v, step):
        h = v[0]
        if h == 'agg':
            cur = self.project(v[1], step) if v[1] is not None else ('undef',)
            subs = []

            def flush():
                nonlocal cur
                if subs:
                    cur = self.mkagg(cur, subs)
                    del subs[:]
            for p, x in v[2]:
                e = p[0]
                if e[0] == 'forall':
                    rel = e[1]
                    if rel[0][0] != step[0]:
                        continue
                    if step[0] == 'f':
                        if rel[0] == step:
                            subs.append(((('forall', rel[1:], e[2], e[3]),), x))
                        continue
                    if len(rel) > 1:
                        return ('i', v, step[1])
                    flush()
                    c, val = self._match_ix([rel[0][1]], [step[1]], e[2], e[3], x)
                    cur = ite(c, val, cur) if c is not None else ('unk', 'alias')
                elif e == step:
                    if len(p) == 1:
                        subs = []
                        cur = x
                    else:
                        subs.append((p[1:], x))
                elif step[0] == 'i' and e[0] == 'i':
                    c = eq(e[1], step[1])
                    if c == FALSE:
                        continue
                    flush()
                    cur = ite(c, x if len(p) == 1 else self.mkagg(cur, [(p[1:], x)]), cur)
            flush()
            return cur
        if h == 'i' and v[1][0] == 'agg' and step[0] == 'i':
            fas = [(p[0], x) for p, x in v[1][2] if p[0][0] == 'forall' and len(p[0][1]) == 2]
            if len(fas) == 1 and all(p[0][0] == 'forall' for p, _ in v[1][2]) and len(v[1][2]) == 1:
                fa, x = fas[0]
                c, val = self._match_ix([q[1] for q in fa[1]], [v[2], step[1]], fa[2], fa[3], x)
                if c is not None:
                    return ite(c, val, self.project(self.project(v[1][1], ('i', v[2])), step))
        if h == 'ite':
            return ite(v[1], self.project(v[2], step), self.project(v[3], step))
        if h == 'zero':
            return v
        if h == 'undef':
            return v
        if h == 'list' and step[0] == 'i' and num(step[1]) is not None and 0 <= num(step[1]) < len(v[1]):
            return v[1][int(num(step[1]))]
        if h == 'fill' and step[0] == 'i':
            return v[2]
        if h == 'some' and step == ('f', '$val'):
            return v[1]
        if h == 'm' and v[1] == 'push_back' and step[0] == 'i':
            c = eq(step[1], self.size(v[2]))
            return ite(c, v[3][0], self.project(v[2], step)) if v[3] else (step[0], v, step[1])
        if h == 'm' and v[1] == 'append' and step[0] == 'i':
            n = self.size(v[2])
            return ite(lt(step[1], n, True), self.project(v[2], step), self.project(v[3][0], ('i', add(sub(step[1], n), v[3][1]))))
        g = gathered(v)
        if g is not None and step[0] == 'i':
            ix, (_, lo, hi), x, init = g
            n = self.size(init)
            return ite(lt(step[1], n, True), self.project(init, step), subst(x, {ix: add(lo, sub(step[1], n))}))
        if h == 'bits' and step[0] == 'i':
            return tb(v[1], step[1])
        if h == 'allones' and step[0] == 'i':
            return TRUE
        if h == 'bits>>' and step[0] == 'i' and len(v) == 4:
            k = add(step[1], v[2])
            return and_(lt(k, v[3], True), truth(self.project(v[1], ('i', k))))
        if h == 'bits<<' and step[0] == 'i' and len(v) == 4:
            return and_(not_(lt(step[1], v[2], True)), truth(self.project(v[1], ('i', sub(step[1], v[2])))))
        if h == 'bnot' and step[0] == 'i':
            return not_(truth(self.project(v[1], step)))
        if h in ('bit&', 'bit|', 'bit^') and step[0] == 'i':
            xs = [truth(self.project(x, step)) for x in v[1]]
            if h == 'bit&':
                return and_(*xs)
            if h == 'bit|':
                return or_(*xs)
            r = xs[0]
            for x in xs[1:]:
                r = or_(and_(r, not_(x)), and_(not_(r), x))
            return r
        if h == 'addr':
            return (step[0], v[1], step[1])
        if h in ('f', 'i'):
            r, path = v, [step]
            while r[0] in ('f', 'i'):
                path.append((r[0], r[2]))
                r = r[1]
            if r[0] == 'agg':
                x = self.deep(r, path[::-1])
                if x is not None:
                    return x
        return (step[0], v, step[1])

    def deep(self, agg, path):
        """part of an aggregate selected by a path; None if some entry describes a smaller part"""
        def covers(q):
            return len(q) <= len(path) and all(a[0] == b[0] and (a[0] == 'i' or a == b) for a, b in zip(q, path))
        hits = []
        for p, x in agg[2]:
            q, ix, dom = (p, None, None) if p[0][0] != 'forall' else (p[0][1], p[0][2], p[0][3])
            if covers(q):
                hits.append((q, ix, dom, x))
            elif len(q) > len(path) and all(a[0] == b[0] and (a[0] == 'i' or a == b) for a, b in zip(q, path)):
                return None
        cur = agg[1]
        for stp in path:
            cur = self.project(cur, stp)
        for q, ix, dom, x in hits:
            pi = [a[1] for a in q if a[0] == 'i']
            li = [b[1] for a, b in zip(q, path) if a[0] == 'i']
            if ix is None:
                c, val = and_(*[eq(a, b) for a, b in zip(pi, li)]), x
            else:
                c, val = self._match_ix(pi, li, ix, dom, x)
                if c is None:
                    return None
            for stp in path[len(q):]:
                val = self.project(val, stp)
            cur = ite(c, val, cur)
        return cur

    def write(self, st, loc, val, node=None, silent=False):
        if loc[0] == 'ite':
            a = self.read(st, loc[2])
            b = self.read(st, loc[3])
            self.write(st, loc[2], ite(loc[1], val, a), node)
            self.write(st, loc[3], ite(loc[1], b, val), node)
            return
        s = st.store
        if not silent and (not is_local(loc) or (self.evlocal and loc[0] in ('f', 'i'))):
            self.emit('write', st, {'loc': loc, 'val': val, 'old': self.read(st, loc) if not self.trial else ('undef',)}, node)
        if loc in s.pref:
            for k in [k for k in s if (is_prefix(loc, k) if k[0] != 'forall' else is_prefix(loc, k[1]))]:
                del s[k]
        s.pop(loc, None)
        if val[0] == 'agg':
            if val[1] is not None:
                s[loc] = val[1]
            for p, x in val[2]:
                l = loc
                if p[0][0] == 'forall':
                    for stp in p[0][1]:
                        l = (stp[0], l, stp[1])
                    s[('forall', l, p[0][2], p[0][3])] = x
                    continue
                for stp in p:
                    l = (stp[0], l, stp[1])
                s[l] = x
        else:
            s[loc] = val

    def size(self, v):
        h = v[0]
        if h == 'list':
            return N(len(v[1]))
        if h == 'fill':
            return v[1]
        if h == 'zero':
            return ZERO
        if h == 'm':
            if v[1] in ('push_back', 'emplace_back', 'push_front', 'emplace', 'insert1'):
                return add(self.size(v[2]), ONE)
            if v[1] == 'append':
                return add(self.size(v[2]), sub(v[3][2], v[3][1]))
            if v[1] in ('pop_back', 'pop_front'):
                return sub(self.size(v[2]), ONE)
            if v[1] == 'clear':
                return ZERO
            if v[1] == 'resize':
                return v[3][0]
        if h == 'ite':
            return ite(v[1], self.size(v[2]), self.size(v[3]))
        if h == 'agg':
            if v[1] is not None and all(p[0][0] == 'i' or (p[0][0] == 'forall' and p[0][1][0][0] == 'i') for p, _ in v[2]):
                return self.size(v[1])
        if h == 'str':
            return N(len(v[1]))
        if h in ('f', 'i'):
            # part of an aggregate whose elements only are overwritten
            b, path = v, []
            while b[0] in ('f', 'i'):
                path.append((b[0], b[2]))
                b = b[1]
            path = path[::-1]
            if b[0] == 'agg' and b[1] is not None:
                ok = True
                for p, _ in b[2]:
                    q = p if p[0][0] != 'forall' else p[0][1]
                    same = all(x[0] == y[0] and (x[0] == 'i' or x == y) for x, y in zip(q, path))
                    ok = ok and not (same and (len(q) <= len(path) or q[len(path)][0] != 'i'))
                if ok:
                    w = b[1]
                    for stp in path:
                        w = self.project(w, stp)
                    if w != v:
                        return self.size(w)
        g = gathered(v)
        if g is not None:
            n = sub(g[1][2], g[1][1])
            if g[1][2][0] != 'size' and n[0] != 'size' and num(n) is None:
                n = ite(lt(g[1][1], g[1][2], True), n, ZERO)
            return add(self.size(g[3]), n)
        return ('size', v)

    # ------------------------------------------------------------------ types
    def scal(self, e):
        return (e.get('t') or {}).get('k') in ('b', 'i', 'u', 'f', 'e', 'p')

    def fix(self, v, t):
        """scalar view of zero-initialised values"""
        k = (t or {}).get('k')
        if v[0] == 'zero':
            if k in ('i', 'u', 'f', 'e'):
                return ZERO
            if k == 'b':
                return FALSE
            if k == 'p':
                return ('null',)
        return v

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        """rvalue"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit('step limit')
        k = e['k']
        t = e.get('t') or {}
        if 'cv' in e and k != 'assign':
            c = Q(Fraction(e['cv']))
            if t.get('k') == 'b':
                return TRUE if c else FALSE
            if k == 'ref' and e.get('rk') == 'enum':
                return ('enum', e['q'], int(c))
            if t.get('k') == 'e':
                return self.enumval(t['t'], int(c))
            if k not in ('call',) or True:
                return ('n', c)
        if k == 'int':
            return N(int(e['v']))
        if k == 'float':
            return N(Fraction(e['v']) if not any(c in e['v'].lower() for c in 'xpn') else Fraction(float(e['v'])))
        if k == 'bool':
            return TRUE if e['v'] else FALSE
        if k == 'str':
            return ('str', e.get('v', '?'))
        if k == 'null':
            return ('null',)
        if k == 'this':
            return ('addr', self.frame.this)
        if k == 'zero':
            return self.fix(('zero',), t)
        if k == 'none':
            return ('void',)
        if k in ('ref', 'mem', 'index'):
            if k == 'ref':
                if e['rk'] == 'enum':
                    return ('enum', e['q'], e['v'])
                if e['rk'] == 'fn':
                    return ('fn', e['f'])
                if e['rk'] == 'global':
                    return self.fix(self.globalval(e, st), t)
            if k == 'mem' and not e.get('lv') and e['mk'] == 'field':
                b = self.ev(e['b'], st)
                return self.fix(self.project(b, ('f', e['n'])), t)
            loc = self.lv(e, st)
            return self.fix(self.read(st, loc), t)
        if k == 'call':
            r = self.call(e, st)
            if r[0] == 'L':
                return self.fix(self.read(st, r[1]), t)
            return self.fix(r[1], t)
        if k == 'ctor':
            return self.ctor(e, st)
        if k == 'bin':
            return self.binary(e, st)
        if k == 'assign':
            loc = self.assign(e, st)
            return self.read(st, loc)
        if k == 'un':
            op = e['op']
            if op in ('++', '--'):
                loc = self.lv(e['a'], st)
                old = self.read(st, loc)
                new = self.step(old, 1 if op == '++' else -1)
                self.write(st, loc, new, e)
                return old if e['post'] else new
            if op == '&':
                if e['a'].get('rk') == 'fn':
                    return ('fn', e['a']['f'])
                return ('addr', self.lv(e['a'], st)) if e['a'].get('lv') or e['a']['k'] in ('ref', 'mem') else ('addr', self.ev(e['a'], st))
            if op == '*':
                return self.fix(self.read(st, self.pointee(self.ev(e['a'], st))), t)
            v = self.ev(e['a'], st)
            if op == '!':
                return not_(truth(v))
            if op == '-':
                return neg(v)
            if op == '~':
                return ('bnot', v)
            if op == '+':
                return v
            return self.unk('unary ' + op, e, v)
        if k == 'cond':
            c = truth(self.ev(e['c'], st))
            if c[0] == 'b':
                return self.ev(e['a'] if c[1] else e['b'], st)
            a, b = self.branch2(c, lambda s: self.ev(e['a'], s), lambda s: self.ev(e['b'], s), st)
            return ite(c, a, b)
        if k == 'cast':
            return self.cast(e, st)
        if k == 'init':
            return self.initlist(e, st)
        if k == 'lambda':
            return self.lam(e, st)
        if k == 'throw':
            self.emit('throw', st, {'type': e.get('tt', 'rethrow')}, e)
            self.thrown = True
            st.ctx = st.ctx + (('dead',),)
            return ('void',)
        if k == 'sizeof':
            return ('sizeof', e['of'])
        if k == 'typeid':
            return ('typeid', e['of'])
        if k == 'new':
            return ('new', e['of'], (self.ev(e['n'], st),) if 'n' in e else ())
        if k == 'delete':
            v = self.ev(e['a'], st)
            self.emit('call', st, {'q': 'delete', 'obj': None, 'args': [v]}, e)
            return ('void',)
        if k == 'arrcopy':
            return self.ev(e['a'], st)
        if k == 'unk':
            for a in e.get('a') or []:
                self.ev(a, st)
            return self.unk(e['cls'], e)
        return self.unk(k, e)

    def enumval(self, tname, c):
        en = self.F.enums.get(tname)
        if en:
            for x in en['e']:
                if x['v'] == c:
                    return ('enum', tname + '::' + x['n'], c)
        return N(c)

    def globalval(self, e, st):
        q = e['q']
        if q == 'std::nullopt':
            return ('none',)
        g = self.F.globals.get(q)
        loc = ('g', q)
        if loc in st.store:
            return st.store[loc]
        if g:
            cand = [x for x in g if x['tu'] == self.frame.fn.get('tu')] or g
            x = cand[0]
            if (x['constexpr'] or x['isconst']) and 'init' in x:
                kk = (q, x['tu'])
                if kk not in self.gcache:
                    self.gcache[kk] = ('g', q)
                    self.gcache[kk] = self.ev(x['init'], State())
                return self.gcache[kk]
        return loc

    def step(self, v, d):
        if v[0] == 'it':
            return ('it', v[1], add(v[2], N(d)))
        if v[0] == 'addr' and v[1][0] == 'i':
            return ('addr', ('i', v[1][1], add(v[1][2], N(d))))
        return add(v, N(d))

    def pointee(self, v):
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'it':
            return ('i', v[1], v[2])
        if v[0] == 'fnd':
            return v
        if v[0] == 'ite':
            return ('ite', v[1], self.pointee(v[2]), self.pointee(v[3]))
        return ('d', v)

    def lv(self, e, st):
        """location of a glvalue (temporaries are materialised)"""
        k = e['k']
        if k == 'ref':
            rk = e['rk']
            if rk in ('var', 'param'):
                f = self.frame
                while f is not None:
                    if e['id'] in f.bind:
                        return f.bind[e['id']]
                    f = f.parent
                return ('s', e['n'])
            if rk == 'global':
                v = self.globalval(e, st)
                if v != ('g', e['q']):
                    return ('lit', v) if v[0] not in ('s', 'f', 'i', 'd', 'g') else v
                return ('g', e['q'])
        if k == 'mem' and e['mk'] == 'field':
            if e['arrow']:
                b = self.pointee(self.ev(e['b'], st))
            else:
                b = self.lv(e['b'], st)
            return self.sublocs(b, 'f', e['n'])
        if k == 'index':
            b = self.ev(e['a'], st)
            i = self.ev(e['b'], st)
            if b[0] == 'it':
                return ('i', b[1], add(b[2], i))
            if b[0] == 'addr' and b[1][0] == 'i':
                return ('i', b[1][1], add(b[1][2], i))
            # arrays decay: base expression of array type is a location
            if (e['a'].get('t') or {}).get('ptr'):
                return ('i', b[1] if b[0] == 'addr' else ('d', b), i)
            return self.sublocs(self.lv(e['a'], st), 'i', i)
        if k == 'un':
            if e['op'] == '*':
                return self.pointee(self.ev(e['a'], st))
            if e['op'] in ('++', '--') and not e['post']:
                self.ev(e, st)
                return self.lv(e['a'], st)
        if k == 'assign':
            return self.assign(e, st)
        if k == 'cond' and e.get('lv'):
            c = truth(self.ev(e['c'], st))
            if c[0] == 'b':
                return self.lv(e['a'] if c[1] else e['b'], st)
            a, b = self.branch2(c, lambda s: self.lv(e['a'], s), lambda s: self.lv(e['b'], s), st)
            return a if a == b else ('ite', c, a, b)
        if k == 'call':
            r = self.call(e, st)
            if r[0] == 'L':
                return r[1]
            return self.temp(r[1], st)
        if k == 'cast' and e.get('lv'):
            return self.lv(e['a'], st)
        if k == 'this':
            return self.frame.this
        return self.temp(self.ev(e, st), st)

    def sublocs(self, b, h, x):
        if b[0] == 'ite':
            return ('ite', b[1], self.sublocs(b[2], h, x), self.sublocs(b[3], h, x))
        if b[0] == 'fnd':
            # map entry: second is the mapped object, first the key
            return ('i', b[1], b[3]) if x == 'second' else (('lit', b[3]) if x == 'first' else (h, b, x))
        return (h, b, x)

    def temp(self, v, st):
        l = self.new()
        self.write(st, l, v)
        return l

    def branch2(self, c, fa, fb, st):
        """evaluate two alternatives of an expression with side effects merged"""
        ctx = st.ctx
        sa, sb = st.copy(), st.copy()
        sa.ctx = ctx + (c,)
        sb.ctx = ctx + (not_(c),)
        a = fa(sa)
        b = fb(sb)
        da, db = ('dead',) in sa.ctx, ('dead',) in sb.ctx
        if da and not db:
            st.store, st.ctx = sb.store, sb.ctx
            return b, b
        if db and not da:
            st.store, st.ctx = sa.store, sa.ctx
            return a, a
        st.store = self.merge(c, sa, sb).store
        st.ctx = ctx
        return a, b

    def merge(self, c, sa, sb):
        if sa.store is sb.store:
            return State(sa.store, sa.ctx)
        out = {}
        A, B = sa.store, sb.store
        keys = list(A)
        for k in B:
            if k not in A:
                keys.append(k)
        changed = False
        res = {}
        for k in keys:
            if k in A and k in B and (A[k] is B[k] or A[k] == B[k]):
                res[k] = A[k]
                continue
            if k[0] == 'forall':
                va = A.get(k)
                vb = B.get(k)
                if va is None or vb is None:
                    # conditional element-wise write
                    if va is None:
                        res[k] = ite(c, self._basefa(sa, k), vb)
                    else:
                        res[k] = ite(c, va, self._basefa(sb, k))
                else:
                    res[k] = ite(c, va, vb)
                continue
            if k[0] == 'v' and (k not in A or k not in B):
                # local of one branch only; dead after the join
                res[k] = A.get(k, B.get(k))
                continue
            va = A[k] if k in A else self._base(sa, k)
            vb = B[k] if k in B else self._base(sb, k)
            res[k] = ite(c, va, vb)
            changed = True
        ks = sorted(res, key=lambda k: depth(k) if k[0] != 'forall' else depth(k[1])) if changed else res
        return State({k: res[k] for k in ks}, sa.ctx)

    def _basefa(self, st, k):
        return self._base(st, k[1])

    # ------------------------------------------------------------------ operators
    def binary(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            a = truth(self.ev(e['a'], st))
            if a[0] == 'b':
                if (op == '&&') == a[1]:
                    return truth(self.ev(e['b'], st))
                return a
            if op == '&&':
                b, _ = self.branch2(a, lambda s: truth(self.ev(e['b'], s)), lambda s: FALSE, st)
                return and_(a, b)
            b, _ = self.branch2(not_(a), lambda s: truth(self.ev(e['b'], s)), lambda s: TRUE, st)
            return or_(a, b)
        if op == ',':
            self.ev(e['a'], st)
            return self.ev(e['b'], st)
        a = self.ev(e['a'], st)
        b = self.ev(e['b'], st)
        if op in ('<<', '>>') and (e.get('t') or {}).get('w'):
            self.emit('shift', st, {'op': op, 'value': a, 'amount': b, 'width': e['t']['w']}, e)
        return self.arith(op, a, b, e['a'].get('t') or {}, e['b'].get('t') or {}, e.get('t') or {}, e)

    def arith(self, op, a, b, ta, tb, t, node=None):
        if a[0] == 'it' or b[0] == 'it':
            if op in ('==', '!=') and a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                r = eq(a[2], b[2])
                return r if op == '==' else not_(r)
            if op in ('<', '>') and a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                return lt(a[2], b[2], True) if op == '<' else lt(b[2], a[2], True)
            if op == '+' and a[0] == 'it' and b[0] != 'it':
                return ('it', a[1], add(a[2], b))
            if op == '-' and a[0] == 'it' and b[0] != 'it':
                return ('it', a[1], sub(a[2], b))
            if op == '-' and a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                return sub(a[2], b[2])
        if a[0] == 'addr' and a[1][0] == 'i' and op in '+-' and (ta.get('ptr')):
            return ('addr', ('i', a[1][1], add(a[1][2], b) if op == '+' else sub(a[1][2], b)))
        if op in ('+', '-') and ta.get('ptr') and not tb.get('ptr') and a[0] != 'addr':
            return ('addr', ('i', ('d', a), b if op == '+' else neg(b)))
        uns = ta.get('k') in ('u', 'b', 'e') and tb.get('k') in ('u', 'b', 'e')
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if t.get('k') == 'f' or ta.get('k') == 'f' or tb.get('k') == 'f':
                return fdiv(a, b)
            return idiv(a, b)
        if op == '%':
            return mod(a, b)
        if op in ('<<', '>>'):
            return shl(a, b) if op == '<<' else shr(a, b)
        if op in ('&', '|', '^'):
            if t.get('k') == 'b' or (is_bool(a) and is_bool(b)):
                a, b = truth(a), truth(b)
                if op == '&':
                    return and_(a, b)
                if op == '|':
                    return or_(a, b)
                return or_(and_(a, not_(b)), and_(not_(a), b))
            return bitop(op, a, b)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        if op == '<':
            return lt(a, b, uns)
        if op == '>':
            return lt(b, a, uns)
        if op == '<=':
            return not_(lt(b, a, uns))
        if op == '>=':
            return not_(lt(a, b, uns))
        return self.unk('op ' + op, node, a, b)

    def assign(self, e, st):
        op = e['op']
        if op == '=':
            v = self.ev(e['b'], st)
            loc = self.lv(e['a'], st)
            v = self.narrow(v, e['b'].get('t') or {}, e['a'].get('t') or {})
        else:
            r = self.ev(e['b'], st)
            loc = self.lv(e['a'], st)
            old = self.fix(self.read(st, loc), e['a'].get('t'))
            ct = e.get('ct') or e.get('t')
            v = self.arith(op[:-1], old, r, e['a'].get('t') or {}, e['b'].get('t') or {}, ct, e)
            at = e['a'].get('t') or {}
            if at.get('k') in ('u', 'i') and ct.get('k') == 'f':
                v = ('ftoi', v)
            elif at.get('k') == 'b' and not is_bool(v):
                v = truth(v)
        self.write(st, loc, v, e)
        return loc

    def narrow(self, v, ft, tt):
        return v

    def cast(self, e, st):
        ck = e['ck']
        if ck in ('LValueBitCast',):
            return self.ev(e['a'], st)
        v = self.ev(e['a'], st)
        ft, tt = e['a'].get('t') or {}, e.get('t') or {}
        if ck == 'IntegralCast':
            if tt.get('k') == 'e':
                c = num(v)
                return self.enumval(tt['t'], int(c)) if c is not None else v
            fw = ft.get('w') or (1 if ft.get('k') == 'b' else 32)
            tw = tt.get('w') or 32
            c = num(v)
            if c is not None:
                c = int(c)
                if tt.get('k') == 'u':
                    c %= 2 ** tw
                elif tt.get('k') == 'i':
                    c = (c + 2 ** (tw - 1)) % 2 ** tw - 2 ** (tw - 1)
                return N(c)
            if tw >= fw:
                return v
            if v[0] == 'trunc' and v[1] <= tw:
                return v
            return ('trunc', tw, v)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return truth(v)
        if ck == 'FloatingToIntegral':
            c = num(v)
            if c is not None:
                return N(int(c))
            return ('ftoi', v)
        if ck == 'NullToPointer':
            return ('null',)
        if ck == 'ToVoid':
            return ('void',)
        if ck == 'Dynamic':
            return ('dyn', tt.get('t'), v)
        return v

    def initlist(self, e, st):
        if e.get('f') == ['_M_elems']:
            return self.ev(e['a'][0], st)   # the elements of a std::array are its own
        if 'f' in e:
            items = []
            for n, a in zip(e['f'], e['a']):
                v = self.ev(a, st)
                if n.startswith('base:'):
                    if v[0] == 'agg':
                        items += list(v[2])
                    continue
                if v[0] == 'agg' and v[1] in (None, ('undef',), ('zero',)):
                    items += [((('f', n),) + p, x) for p, x in v[2]]
                else:
                    items.append(((('f', n),), v))
            return ('agg', ('zero',), tuple(items))
        vals = tuple(self.ev(a, st) for a in e['a'])
        t = e.get('t') or {}
        if t.get('k') in ('b', 'i', 'u', 'f', 'e', 'p'):
            return vals[0] if vals else self.fix(('zero',), t)
        return ('list', vals)

    def lam(self, e, st):
        caps = []
        for c in e['caps']:
            if c.get('this'):
                caps.append(('this', self.frame.this, not c.get('copy')))
            elif 'id' in c:
                if c.get('init'):
                    if c['byref']:
                        caps.append((c['id'], self.lv(c['init'], st), True))
                    else:
                        caps.append((c['id'], self.ev(c['init'], st), False))
                else:
                    loc = self.lv({'k': 'ref', 'rk': 'var', 'id': c['id'], 'n': c['n']}, st)
                    if c['byref']:
                        caps.append((c['id'], loc, True))
                    else:
                        caps.append((c['id'], self.read(st, loc), False))
        return ('lam', e.get('f') or tuple(e.get('generic') or ()), tuple(caps))

    def call_lambda(self, lam, args, st, node, want=None):
        fid = lam[1]
        if isinstance(fid, tuple):
            cands = [self.F.functions[f] for f in fid if f in self.F.functions]
            if want is not None and want in self.F.functions:
                fn = self.F.functions[want]
            elif cands:
                fn = cands[0]
            else:
                return ('V', self.unk('generic lambda', node))
        else:
            fn = self.F.functions.get(fid)
            if fn is None:
                return ('V', self.unk('lambda body', node))
        caps = {c[0]: c for c in lam[2]}
        pre = {}
        this = caps['this'][1] if 'this' in caps else (self.frame.this if self.frame else None)
        for cid, v, byref in lam[2]:
            if cid == 'this':
                continue
            if byref:
                pre[cid] = v
            else:
                l = self.new()
                self.write(st, l, v)
                pre[cid] = l
        r, st2 = self.invoke(fn, this, args, st, node, pre)
        st.store, st.ctx = st2.store, st2.ctx
        return r

    # ------------------------------------------------------------------ construction
    def ctor(self, e, st):
        cls = strip_targs(e['cls'])
        if (e.get('copy') or e.get('move')) and (e.get('defaulted') or cls.startswith('std::')) and len(e['a']) == 1:
            return self.ev(e['a'][0], st)
        short = cls
        if cls.startswith('std::') or cls.startswith('__gnu') or cls.startswith('nlohmann'):
            return self.stdctor(short, e, st)
        fn = self.F.functions.get(e['f'])
        if fn is None:
            vals = [self.ev(a, st) for a in e['a']]
            if not vals:
                return ('zero',) if e.get('zeroinit') else self.default_obj(e['cls'])
            if e.get('copy') or e.get('move'):
                return vals[0]
            return ('new', e['cls'], tuple(vals))
        if self.prim('ctor:' + cls):
            vals = tuple(self.ev(a, st) for a in e['a'])
            self.emit('call', st, {'q': 'ctor:' + cls, 'obj': None, 'args': list(vals), 'f': e['f']}, e)
            return ('new', cls, vals)
        loc = self.new()
        if e.get('zeroinit'):
            st.store[loc] = ('zero',)
        if e.get('inh'):
            args = [('L', self.frame.bind[p['id']]) for p in self.frame.fn['params']]
        else:
            args = [self.arg(a, p, st) for a, p in zip(e['a'], fn['params'])]
        r, st2 = self.invoke(fn, loc, args, st, e)
        st.store, st.ctx = st2.store, st2.ctx
        return self.read(st, loc)

    def strcall(self, n, v, a, st):
        """member functions of a known text"""
        if n not in ('substr', 'find', 'rfind', 'compare', 'length', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'starts_with', 'ends_with'):
            return None
        xs = []
        for x in a:
            if x.get('k') == 'defarg' or 'defarg' in x:
                continue
            t = self.ev(x, st)
            c = num(t)
            if t[0] == 'str':
                xs.append(t[1])
            elif c is not None:
                xs.append(chr(int(c)) if (x.get('t') or {}).get('w') == 8 else int(c))
            else:
                return None
        s, npos = v[1], 2 ** 64 - 1
        try:
            if n == 'length':
                return N(len(s))
            if n == 'substr':
                p = xs[0] if xs else 0
                return ('str', s[p:p + min(xs[1] if len(xs) > 1 else npos, len(s))]) if p <= len(s) else None
            if n == 'compare':
                if len(xs) == 3 and isinstance(xs[0], int) and isinstance(xs[2], str) and xs[0] <= len(s):
                    s, xs = s[xs[0]:xs[0] + min(xs[1], len(s))], xs[2:]
                return N((s > xs[0]) - (s < xs[0])) if len(xs) == 1 and isinstance(xs[0], str) else None
            if n == 'starts_with':
                return ('b', s.startswith(xs[0]))
            if n == 'ends_with':
                return ('b', s.endswith(xs[0]))
            if len(xs) > 2 or not isinstance(xs[0], str):
                return None
            w = xs[0]
            if n == 'find':
                r = s.find(w, min(xs[1] if len(xs) > 1 else 0, len(s) + 1))
            elif n == 'rfind':
                p = xs[1] if len(xs) > 1 else npos
                r = s.rfind(w, 0, min(p, len(s)) + len(w))
            else:
                last, neg = 'last' in n, 'not' in n
                p = xs[1] if len(xs) > 1 else (npos if last else 0)
                ix = [i for i, ch in enumerate(s) if (ch in w) != neg and (i <= p if last else i >= p)]
                r = (ix[-1] if last else ix[0]) if ix else -1
            return N(r if r >= 0 else npos)
        except (IndexError, TypeError):
            return None

    def default_obj(self, cls):
        return ('undef',)

    def stdctor(self, cls, e, st):
        a = e['a']
        vals = [self.ev(x, st) for x in a]
        if cls in ('std::vector', 'std::deque', 'std::basic_string', 'std::map', 'std::unordered_map', 'std::set', 'std::initializer_list'):
            if not vals:
                return ('list', ())
            if cls in ('std::basic_string',):
                if vals[0][0] == 'str':
                    return vals[0]
                return ('c', 'std::string', None, tuple(vals)) if len(vals) > 1 else vals[0]
            tys = [(x.get('t') or {}).get('k') for x in a]
            if vals[0][0] == 'list':
                return vals[0]
            if tys and tys[0] in ('u', 'i') and cls in ('std::vector', 'std::deque'):
                return ('fill', vals[0], vals[1] if len(vals) > 1 and tys[1] != 'r' or (len(vals) > 1 and 'allocator' not in (a[1].get('t') or {}).get('t', '')) else ('zero',))
            if len(vals) == 1 or (len(vals) == 2 and 'allocator' in (a[1].get('t') or {}).get('t', '')):
                return vals[0]
            if vals[0][0] == 'it' and len(vals) >= 2 and vals[1][0] == 'it':
                return ('slice', vals[0][1], vals[0][2], vals[1][2])
            return ('c', 'ctor:' + cls, None, tuple(vals))
        if cls == 'std::basic_string_view':
            if len(vals) == 1:
                return vals[0]
            return ('str', '') if not vals else ('c', 'ctor:' + cls, None, tuple(vals))
        if cls == 'std::bitset':
            if not vals or num(vals[0]) == 0:
                return ('zero',)
            return ('bits', vals[0])
        if cls == 'std::optional':
            if not vals or vals[0] == ('none',):
                return ('none',)
            src = (a[0].get('t') or {}).get('t', '')
            if src.startswith('std::optional<'):
                return vals[0]
            return ('some', vals[0])
        if cls == 'std::nullopt_t':
            return ('none',)
        if cls == 'std::pair':
            if len(vals) == 2:
                return ('agg', ('zero',), (((('f', 'first'),), vals[0]), ((('f', 'second'),), vals[1])))
            if not vals:
                return ('zero',)
            return vals[0]
        if cls == 'std::tuple':
            if len(vals) == 1 and (a[0].get('t') or {}).get('t', '').startswith('std::tuple<'):
                return vals[0]
            return ('agg', ('zero',), tuple(((('f', str(i)),), v) for i, v in enumerate(vals)))
        if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::function', 'std::reference_wrapper'):
            if not vals:
                return ('null',)
            return vals[0]
        if cls.endswith('iterator') or cls in ('std::monostate',):
            return vals[0] if vals else ('undef',)
        if cls in ('nlohmann::basic_json', 'nlohmann::detail::json_ref'):
            return self.jsonval(vals[0] if vals else ('null',), (a[0].get('t') or {}).get('t', '') if a else '')
        if not vals:
            return ('zero',)
        if len(vals) == 1 and (e.get('copy') or e.get('move')):
            return vals[0]
        if cls == 'std::variant' and len(vals) == 1:
            self.emit('alt', st, {'t': (a[0].get('t') or {}).get('t', ''), 'v': vals[0]}, e)
        return ('c', 'ctor:' + cls, None, tuple(vals))

    def jsonval(self, v, ty=''):
        """JSON value made from a C++ value; objects are aggregates indexed by their keys"""
        if v[0] in ('jnull', 'json') or 'basic_json' in ty and 'json_ref' not in ty:
            return v
        if v in (('null',), ('zero',)) and 'nullptr' in ty or v == ('null',):
            return ('jnull',)
        if v[0] == 'list':
            def pair(x):
                return x[0] == 'list' and len(x[1]) == 2 and x[1][0][0] == 'json' and x[1][0][1][0] == 'str'
            if v[1] and all(pair(x) for x in v[1]):
                return self.mkagg(('jnull',), [((('i', x[1][0][1]),), x[1][1]) for x in v[1]])
            if 'json_ref' in ty:
                return v
        return v if v[0] in ('agg', 'list') and 'json_ref' in ty else ('json', v)

    def json(self, e, st, n, op):
        obj, a = e.get('obj'), e['a']

        def place():
            return self.pointee(self.ev(obj, st)) if e.get('arrow') else self.lv(obj, st)
        if (op == '[]' or n == 'at') and len(a) == 1:
            loc = place()
            k = self.ev(a[0], st)
            if n == 'at':
                self.log_idx(st, 'jat', loc, k, e, 'json')
            return ('L', ('i', loc, k))
        if op == '=' and len(a) == 1:
            v = self.ev(a[0], st)
            loc = place()
            self.write(st, loc, v, e)
            return ('L', loc)
        if n == 'array' and (not a or self.ev(a[0], st) == ('list', ())):
            return ('V', ('list', ()))
        if n == 'object' and not a:
            return ('V', ('jnull',))
        if n == 'contains' and len(a) == 1:
            return ('V', ('has', self.project(self.read(st, place()), ('i', self.ev(a[0], st)))))
        if n == 'is_null':
            return ('V', eq(self.read(st, place()), ('jnull',)))
        if n == 'push_back' and len(a) == 1:
            loc = place()
            v, x = self.read(st, loc), self.ev(a[0], st)
            self.emit('mut', st, {'method': n, 'loc': loc, 'args': [x], 'old': v}, e)
            self.write(st, loc, ('list', v[1] + (x,)) if v[0] == 'list' else ('m', n, v, (x,)), e, silent=True)
            return ('V', ('void',))
        if n in ('get_to', 'get'):
            v = self.read(st, place())
            g = v[1] if v[0] == 'json' else ('c', 'json:get', v, ())
            if n == 'get':
                return ('V', g)
            loc = self.lv(a[0], st)
            self.write(st, loc, g, e)
            return ('L', loc)
        return None

    # ------------------------------------------------------------------ calls
    def arg(self, a, p, st):
        """evaluate an argument for a parameter"""
        pt = p['t'] if p else {}
        if pt.get('ref'):
            return ('L', self.lv(a, st))
        return ('V', self.ev(a, st))

    def call(self, e, st):
        q = e.get('q', '')
        f = e.get('f')
        sq = strip_targs(q)
        fn = self.F.functions.get(f) if f else None
        if fn is None and f and '|' in f:
            pass
        # virtual dispatch: a unique final overrider is inlined, otherwise opaque
        if e.get('virt') and f in self.overriders and not (fn and self._exact_type(e)):
            cands = [self.F.functions[x] for x in self.overriders[f] if x in self.F.functions]
            if fn is not None:
                cands = cands + [fn]
            fn = cands[0] if len(cands) == 1 else None
            if fn is None:
                return self.opaque(e, st, sq)
        if e.get('asg') and e.get('dflt') and 'obj' in e and not self.isproxy(e['obj']):
            v = self.ev(e['a'][0], st)
            loc = self.lv(e['obj'], st)
            self.write(st, loc, v, e)
            return ('L', loc)
        if sq in self.bound:
            return self.opaque(e, st, sq)
        if 'pm' in e:
            pf = self.ev(e['pm']['b'], st)
            tgt = self.F.functions.get(pf[1]) if pf[0] == 'fn' else None
            if tgt is None or tgt.get('virtual'):
                return self.opaque(e, st, sq)
            if strip_targs(tgt['q']) in self.bound:
                return self.opaque({**e, 'q': tgt['q'], 'f': pf[1], 'pt': [p['t'] for p in tgt['params']]}, st, strip_targs(tgt['q']))
            this = self.pointee(self.ev(e['obj'], st)) if e['pm']['op'] == '->*' else self.lv(e['obj'], st)
            args = [self.arg(a, p, st) for a, p in zip(e['a'], tgt['params'])]
            r, st2 = self.invoke(tgt, this, args, st, e)
            st.store, st.ctx = st2.store, st2.ctx
            return r
        if fn is not None and not self.prim(sq):
            if len(self.stack) >= self.max_depth or self.stack.count(fn) >= 2:
                return self.opaque(e, st, sq)
            this = None
            if 'obj' in e and not e.get('static'):
                if fn.get('lambda'):
                    ov = self.ev(e['obj'], st)
                    if ov[0] == 'lam':
                        args = [self.arg(a, p, st) for a, p in zip(e['a'], fn['params'])]
                        return self.call_lambda(ov, args, st, e, want=f)
                    return self.opaque(e, st, sq)
                this = self.pointee(self.ev(e['obj'], st)) if e.get('arrow') else self.lv(e['obj'], st)
            args = [self.arg(a, p, st) for a, p in zip(e['a'], fn['params'])]
            r, st2 = self.invoke(fn, this, args, st, e)
            st.store, st.ctx = st2.store, st2.ctx
            return r
        r = self.stdcall(e, st, sq)
        if r is not None:
            return r
        return self.opaque(e, st, sq)

    def _whole(self, a):
        """the argument is a cast of container.data()"""
        while a.get('k') == 'cast':
            a = a['a']
        if a.get('k') != 'call' or a.get('n') != 'data':
            return 0
        t = a['t'].get('t', '').replace('const ', '')
        return {'unsigned char *': 1, 'char *': 1, 'signed char *': 1, 'bool *': 1, 'unsigned short *': 2, 'short *': 2, 'unsigned int *': 4, 'int *': 4,
                'unsigned long *': 8, 'long *': 8, 'double *': 8, 'float *': 4}.get(t, 0)

    def _exact_type(self, e):
        o = e.get('obj') or {}
        return o.get('k') in ('mem', 'ref') and not e.get('arrow') and not (o.get('t') or {}).get('ref')

    def isproxy(self, obj):
        t = (obj.get('t') or {}).get('t', '')
        return 'bitset<' in t and t.endswith('::reference') or '_Bit_reference' in t

    def opaque(self, e, st, sq):
        """a call that is not followed: event, result term, havoc of what it may modify"""
        objloc = objval = None
        if 'obj' in e and not e.get('static'):
            if e.get('arrow'):
                objloc = self.pointee(self.ev(e['obj'], st))
            else:
                objloc = self.lv(e['obj'], st)
            objval = self.read(st, objloc)
        elif 'fp' in e:
            objval = self.ev(e['fp'], st)
            if objval[0] == 'lam':
                fn = self.F.functions.get(objval[1]) if not isinstance(objval[1], tuple) else None
                if fn:
                    args = [self.arg(a, p, st) for a, p in zip(e['a'], fn['params'])]
                    return self.call_lambda(objval, args, st, e)
        vals, locs = [], []
        pts = e.get('pt') or [{}] * len(e['a'])
        for i, a in enumerate(e['a']):
            pt = pts[i] if i < len(pts) else {}
            if pt.get('ref') and a.get('lv'):
                l = self.lv(a, st)
                locs.append((l, pt))
                vals.append(self.read(st, l))
            else:
                v = self.ev(a, st)
                vals.append(v)
                if v[0] == 'addr' and pt.get('ptr') and not pt.get('pconst'):
                    locs.append((v[1], {'ref': 1}))
        ta = tuple(e.get('ta') or ())
        name = sq or 'indirect'
        stream = name.startswith(STREAMS)
        deref = [self.read(st, v[1]) if v[0] == 'addr' else None for v in vals]
        pure = name.startswith(PURE_STD) or e.get('cst')
        res = ('c', name + ('<%s>' % ','.join(ta) if ta and self.prim(sq) else ''), objval, tuple(vals))
        d = {'q': name, 'obj': objloc if objloc is not None else objval, 'objval': objval, 'args': vals, 'ta': ta, 'f': e.get('f'), 'res': res, 'locs': [l for l, _ in locs], 'deref': deref}
        arr = None
        if stream and sq not in self.bound:
            # the content of a stream is not modelled; every read yields its own symbol
            site = (tuple(self.nodes), id(e))
            n = self.sites.setdefault(site, len(self.sites))
            rd = ('rd', n, tuple(c[1] for c in st.ctx if c[0] == 'loop'))
            d['rd'] = n
            if len(vals) == 2 and vals[0][0] == 'addr' and vals[0][1][0] == 'i' and vals[0][1][2] == ZERO and self._whole(e['a'][0]):
                # the bytes of a whole array
                arr = vals[0][1][1]
                d['elem'] = self.read(st, ('i', arr, ('s', '#e')))
                cnt = num(vals[1])
                d['elems'] = [self.read(st, ('i', arr, N(j))) for j in range(int(cnt) // self._whole(e['a'][0]))] if cnt is not None and cnt <= 64 else []
        self.emit('call', st, d, e)
        if sq in self.bound:
            for i, (l, pt) in enumerate(locs) if sq in self.outs else ():
                if not pt.get('const') and pt.get('ref') != 2:
                    self.write(st, l, ('out', name, i, objval, tuple(vals)), e)
            return ('V', res)
        if stream:
            for i, (l, pt) in enumerate(locs):
                if not pt.get('const') and pt.get('ref') != 2:
                    self.write(st, arr if arr is not None and l == vals[0][1] else l, rd, e)
            return ('V', ('c', name, objloc, (rd,)))
        if objloc is not None and not e.get('cst') and not e.get('static'):
            self.write(st, objloc, ('m', name, objval, tuple(vals)), e, silent=True)
        for i, (l, pt) in enumerate(locs):
            if not pt.get('const') and pt.get('ref') != 2:
                self.write(st, l, ('out', name, i, objval, tuple(vals)), e)
        return ('V', res)

    # ---- models of the standard library
    def stdcall(self, e, st, sq):
        op = e.get('op')
        a = e['a']
        if sq in IDENT_FUNCS and len(a) == 1:
            if sq == 'std::addressof':
                return ('V', ('addr', self.lv(a[0], st)))
            if a[0].get('lv') or a[0]['k'] in ('ref', 'mem', 'call', 'index'):
                return ('L', self.lv(a[0], st)) if a[0].get('lv') else ('V', self.ev(a[0], st))
            return ('V', self.ev(a[0], st))
        cls = strip_targs(e.get('cls', '')) if 'obj' in e else ''
        n = e.get('n', '')
        if sq in ('std::min', 'std::max') and len(a) == 2:
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            u = (a[0].get('t') or {}).get('k') == 'u'
            return ('V', ite(lt(y, x, u), y, x) if n == 'min' else ite(lt(x, y, u), y, x))
        if sq == 'std::get' and len(a) == 1 and e.get('ta'):
            i = e['ta'][0]
            at = (a[0].get('t') or {}).get('t', '')
            if i.isdigit():
                nm = ('first', 'second')[int(i)] if at.startswith('std::pair<') else i
                if at.startswith('std::array<'):
                    return ('L', ('i', self.lv(a[0], st), N(int(i))))
            else:
                nm = 'alt:' + i
            if a[0].get('lv'):
                return ('L', ('f', self.lv(a[0], st), nm))
            return ('V', self.project(self.ev(a[0], st), ('f', nm)))
        if sq in ('std::make_pair',) and len(a) == 2:
            return ('V', ('agg', ('zero',), (((('f', 'first'),), self.ev(a[0], st)), ((('f', 'second'),), self.ev(a[1], st)))))
        if sq in ('std::make_tuple', 'std::tie', 'std::forward_as_tuple'):
            return ('V', ('agg', ('zero',), tuple(((('f', str(i)),), self.ev(x, st)) for i, x in enumerate(a))))
        if sq == 'std::make_optional' and len(a) == 1:
            return ('V', ('some', self.ev(a[0], st)))
        if sq in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size') and len(a) == 1:
            l = self.lv(a[0], st)
            if n == 'size':
                return ('V', self.size(self.read(st, l)))
            return ('V', ('it', l, ZERO if 'begin' in n else self.size(self.read(st, l))))
        if sq in ('std::next', 'std::prev', 'std::distance'):
            v = self.ev(a[0], st)
            if n == 'distance':
                w = self.ev(a[1], st)
                if v[0] == 'it' and w[0] == 'it' and v[1] == w[1]:
                    return ('V', sub(w[2], v[2]))
            else:
                d = self.ev(a[1], st) if len(a) > 1 else ONE
                if v[0] == 'it':
                    return ('V', ('it', v[1], add(v[2], d if n == 'next' else neg(d))))
        if sq in ('std::for_each',) and len(a) == 3:
            b0, b1, f = self.ev(a[0], st), self.ev(a[1], st), self.ev(a[2], st)
            if b0[0] == 'it' and b1[0] == 'it' and b0[1] == b1[1] and f[0] == 'lam':
                def body(s, ix):
                    self.call_lambda(f, [('L', ('i', b0[1], ix))], s, e)
                self.counted(b0[2], b1[2], body, st, e)
                return ('V', f)
        if sq == 'std::accumulate' and len(a) >= 3:
            b0, b1, ini = self.ev(a[0], st), self.ev(a[1], st), self.ev(a[2], st)
            if b0[0] == 'it' and b1[0] == 'it' and b0[1] == b1[1]:
                l = self.new()
                st.store[l] = ini
                f = self.ev(a[3], st) if len(a) > 3 else None

                def body(s, ix):
                    el = ('i', b0[1], ix)
                    if f is None:
                        self.write(s, l, add(self.read(s, l), self.read(s, el)))
                    elif f[0] == 'lam':
                        r = self.call_lambda(f, [('V', self.read(s, l)), ('L', el)], s, e)
                        self.write(s, l, r[1] if r[0] == 'V' else self.read(s, r[1]))
                self.counted(b0[2], b1[2], body, st, e)
                return ('V', self.read(st, l))
        if sq in ('std::fill', 'std::fill_n', 'std::iota') and len(a) == 3:
            b0 = self.ev(a[0], st)
            b1 = self.ev(a[1], st)
            v = self.ev(a[2], st)
            if b0[0] == 'it':
                hi = b1[2] if b1[0] == 'it' else add(b0[2], b1)
                lo = b0[2]

                def body(s, ix):
                    self.write(s, ('i', b0[1], ix), v if n != 'iota' else add(v, sub(ix, lo)), e)
                self.counted(lo, hi, body, st, e)
                return ('V', ('void',))
        if sq in ('std::any_of', 'std::all_of', 'std::none_of', 'std::count_if', 'std::find_if', 'std::count') and len(a) == 3:
            b0, b1, f = self.ev(a[0], st), self.ev(a[1], st), self.ev(a[2], st)
            if b0[0] == 'it' and b1[0] == 'it' and b0[1] == b1[1]:
                out = []

                def body(s, ix):
                    el = ('i', b0[1], ix)
                    if f[0] == 'lam':
                        r = self.call_lambda(f, [('L', el)], s, e)
                        out.append((ix, truth(r[1] if r[0] == 'V' else self.read(s, r[1]))))
                    else:
                        out.append((ix, eq(self.read(s, el), f)))
                self.counted(b0[2], b1[2], body, st, e)
                if out:
                    ix, c = out[-1]
                    dom = ('rng', b0[2], b1[2])
                    if n in ('count_if', 'count'):
                        return ('V', ('sum', ix, dom, ite(c, ONE, ZERO)))
                    if n == 'any_of':
                        return ('V', ('pred', 'any', ix, dom, c))
                    if n == 'none_of':
                        return ('V', not_(('pred', 'any', ix, dom, c)))
                    if n == 'all_of':
                        return ('V', not_(('pred', 'any', ix, dom, not_(c))))
        if sq == 'std::visit' and len(a) == 2:
            f = self.ev(a[0], st)
            v = self.lv(a[1], st)
            if f[0] == 'lam':
                al = [(x, pt['t']) for x in f[1] if x in self.F.functions for pt in [self.F.functions[x]['params'][0]['t']]] if self.alts and isinstance(f[1], tuple) else []
                if len(al) > 1:
                    def go(i, s2):
                        if i == len(al) - 1:
                            return self.call_lambda(f, [('L', ('f', v, '$alt'))], s2, e, want=al[i][0])
                        c = ('pred', 'holds', al[i][1], v)
                        x, y = self.branch2(c, lambda t: self.call_lambda(f, [('L', ('f', v, '$alt'))], t, e, want=al[i][0]), lambda t: go(i + 1, t), s2)
                        return ('V', ite(c, x[1], y[1])) if x[0] == 'V' and y[0] == 'V' and x[1] != ('void',) else x
                    return go(0, st)
                return self.call_lambda(f, [('L', ('f', v, '$alt'))], st, e)
        if sq == 'std::invoke' and a:
            f = self.ev(a[0], st)
            if f[0] == 'lam':
                return self.call_lambda(f, [('V', self.ev(x, st)) for x in a[1:]], st, e)
            tgt = self.F.functions.get(f[1]) if f[0] == 'fn' else None
            if tgt is not None and not tgt.get('virtual'):
                rest = a[1:]
                obj = None
                if tgt.get('cls') and not tgt.get('static') and len(rest) == len(tgt['params']) + 1:
                    o = rest[0]
                    ot = (o.get('t') or {})
                    ptr = ot.get('k') == 'p' or 'ptr<' in ot.get('t', '') or ot.get('t', '').endswith('*')
                    obj, rest = o, rest[1:]
                if len(rest) == len(tgt['params']):
                    q = strip_targs(tgt['q'])
                    if q in self.bound:
                        e2 = {**e, 'q': tgt['q'], 'f': f[1], 'a': rest, 'pt': [p['t'] for p in tgt['params']]}
                        if obj is not None:
                            e2.update(obj=obj, arrow=ptr)
                        return self.opaque(e2, st, q)
                    this = None if obj is None else self.pointee(self.ev(obj, st)) if ptr else self.lv(obj, st)
                    args = [self.arg(x, p, st) for x, p in zip(rest, tgt['params'])]
                    r, st2 = self.invoke(tgt, this, args, st, e)
                    st.store, st.ctx = st2.store, st2.ctx
                    return r
        if sq in ('__builtin_popcountll', '__builtin_popcount', '__builtin_popcountl') and len(a) == 1:
            return ('V', ('popcount', self.ev(a[0], st)))
        if sq == 'std::pow' and len(a) == 2:
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            if num(y) is not None and num(y).denominator == 1 and 0 <= num(y) <= 8:
                r = ONE
                for _ in range(int(num(y))):
                    r = mul(r, x)
                return ('V', r)
        # operators on iterators and proxies
        if op and 'obj' not in e and len(a) == 2 and op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '&', '|', '^') and not self._repo(sq):
            if self._stream(a[0]):
                return None
            x, y = self.ev(a[0], st), self.ev(a[1], st)
            tx, ty = a[0].get('t') or {}, a[1].get('t') or {}
            if (tx.get('t', '').startswith('std::optional') or ty.get('t', '').startswith('std::optional')) and op in ('==', '!='):
                r = self.opteq(x, y, tx, ty)
                return ('V', r if op == '==' else not_(r))
            return ('V', self.arith(op, x, y, tx, ty, e.get('t') or {}, e))
        if 'obj' not in e or (e.get('static') and cls == 'nlohmann::basic_json'):
            return self.json(e, st, n, op) if sq.startswith('nlohmann::basic_json::') and n in ('array', 'object') else None
        obj = e['obj']
        arrow = e.get('arrow')
        # smart pointers / optional / iterators dereference
        ot = (obj.get('t') or {}).get('t', '')
        if cls in ('std::function',) and op == '()':
            fv = self.read(st, self.pointee(self.ev(obj, st)) if arrow else self.lv(obj, st))
            if fv[0] == 'lam':
                fn = self.F.functions.get(fv[1]) if not isinstance(fv[1], tuple) else None
                args = [self.arg(x, (fn['params'][i] if fn and i < len(fn['params']) else {'t': {'ref': 1}}), st) for i, x in enumerate(a)]
                return self.call_lambda(fv, args, st, e)
            return None
        if op == '->' or (op == '*' and not a):
            if 'optional' in cls:
                l = self.pointee(self.ev(obj, st)) if arrow else self.lv(obj, st)
                return ('L', ('f', l, '$val')) if op == '*' else ('V', ('addr', ('f', l, '$val')))
            v = self.ev(obj, st)
            if op == '->':
                return ('V', v if v[0] != 'it' else ('addr', ('i', v[1], v[2])))
            return ('L', self.pointee(v))
        if n == 'get' and 'ptr' in cls:
            return ('V', self.ev(obj, st))
        if op == '[]' and cls == 'std::unique_ptr' and len(a) == 1:
            v, i = self.ev(obj, st), self.ev(a[0], st)
            return ('L', ('i', v[1] if v[0] == 'addr' else ('d', v), i))
        if cls in ('std::reference_wrapper',) and n == 'get':
            return ('L', self.pointee(self.ev(obj, st)) if arrow else self.lv(obj, st))
        if op in ('++', '--') and ('iterator' in cls or cls.endswith('_Base')):
            loc = self.lv(obj, st)
            old = self.read(st, loc)
            self.write(st, loc, self.step(old, 1 if op == '++' else -1), e)
            return ('V', old) if a else ('L', loc)
        if op in ('+=', '-=') and 'iterator' in cls:
            loc = self.lv(obj, st)
            old = self.read(st, loc)
            d = self.ev(a[0], st)
            if old[0] == 'it':
                self.write(st, loc, ('it', old[1], add(old[2], d if op == '+=' else neg(d))), e)
                return ('L', loc)
        if op in ('==', '!=', '+', '-', '<', '>') and ('iterator' in cls) and len(a) == 1:
            x, y = self.ev(obj, st), self.ev(a[0], st)
            return ('V', self.arith(op, x, y, {}, {}, e.get('t') or {}, e))
        if self.isproxy(obj):
            if op == '=':
                v = truth(self.ev(a[0], st)) if not self.isproxy(a[0]) else truth(self.ev(a[0], st))
                loc = self.lv(obj, st)
                self.write(st, loc, v, e)
                return ('L', loc)
            if n.startswith('operator bool'):
                return ('V', self.read(st, self.lv(obj, st)))
            if n == 'flip':
                loc = self.lv(obj, st)
                self.write(st, loc, not_(truth(self.read(st, loc))), e)
                return ('L', loc)
        if cls == 'std::optional' or cls.startswith('std::_Optional'):
            l = self.pointee(self.ev(obj, st)) if arrow else self.lv(obj, st)
            v = self.read(st, l)
            if n in ('has_value', '_M_is_engaged') or n.startswith('operator bool'):
                return ('V', self.has(v))
            if n == 'value' or op == '*':
                return ('L', ('f', l, '$val'))
            if n == 'value_or':
                return ('V', ite(self.has(v), self.project(v, ('f', '$val')), self.ev(a[0], st)))
            if n == 'reset':
                self.write(st, l, ('none',), e)
                return ('V', ('void',))
            if op == '=' or n == 'emplace':
                src = (a[0].get('t') or {}).get('t', '') if a else ''
                w = self.ev(a[0], st) if a else ('zero',)
                if w != ('none',) and not src.startswith('std::optional<'):
                    w = ('some', w)
                self.write(st, l, w, e)
                return ('L', l)
        if 'ptr' in cls and n.startswith('operator bool'):
            return ('V', not_(eq(self.ev(obj, st), ('null',))))
        if 'function' in cls and n.startswith('operator bool'):
            return ('V', not_(eq(self.ev(obj, st), ('null',))))
        if op == '=' and cls.startswith('std::'):
            v = self.ev(a[0], st)
            loc = self.pointee(self.ev(obj, st)) if arrow else self.lv(obj, st)
            self.write(st, loc, v, e)
            return ('L', loc)
        if cls == 'std::bitset' or cls.startswith('std::_Base_bitset'):
            return self.bitset(e, st, n, op)
        if cls == 'nlohmann::basic_json':
            return self.json(e, st, n, op)
        if cls in CONTAINERS or cls.startswith('std::_Vector') or cls.startswith('std::__detail'):
            return self.container(e, st, n, op, cls)
        return None

    def _repo(self, sq):
        return sq.startswith('DRAMPower')

    def _stream(self, a):
        t = (a.get('t') or {}).get('t', '')
        return 'stream' in t

    def has(self, v):
        if v[0] == 'some':
            return TRUE
        if v[0] in ('none', 'zero', 'undef'):
            return FALSE
        if v[0] == 'ite':
            return truth(ite(v[1], self.has(v[2]), self.has(v[3])))
        if v[0] == 'agg':
            return self.has(v[1]) if v[1] is not None else TRUE
        return ('has', v)

    def opteq(self, x, y, tx, ty):
        ox, oy = tx.get('t', '').startswith('std::optional') or x[0] in ('none', 'some'), ty.get('t', '').startswith('std::optional') or y[0] in ('none', 'some')
        if not ox:
            x = ('some', x)
        if not oy:
            y = ('some', y)
        if x == ('none',):
            return not_(self.has(y))
        if y == ('none',):
            return not_(self.has(x))
        hx, hy = self.has(x), self.has(y)
        return or_(and_(not_(hx), not_(hy)), and_(hx, hy, eq(self.project(x, ('f', '$val')), self.project(y, ('f', '$val')))))

    def bitset(self, e, st, n, op):
        obj = e['obj']
        a = e['a']
        if op in ('==', '!='):
            x, y = self.ev(obj, st), self.ev(a[0], st)
            r = eq(x, y)
            return ('V', r if op == '==' else not_(r))
        if op == '~':
            return ('V', ('bnot', self.ev(obj, st)))
        loc = self.pointee(self.ev(obj, st)) if e.get('arrow') else self.lv(obj, st)
        if op == '[]' or n == 'test':
            i = self.ev(a[0], st)
            self.log_idx(st, 'test' if n == 'test' else '[]', loc, i, e, 'bitset')
            return ('L', ('i', loc, i))
        v = self.read(st, loc)
        if op in ('&=', '|=', '^='):
            self.write(st, loc, bitop(op[0], v, self.ev(a[0], st)), e)
            return ('L', loc)
        if op in ('<<', '>>', '<<=', '>>='):
            m = re.search(r'bitset<(\d+)>', (e['obj'].get('t') or {}).get('t', ''))
            w = ('bits' + op[:2], v, self.ev(a[0], st)) + ((N(int(m.group(1))),) if m else ())
            if op in ('<<', '>>'):
                return ('V', w)
            self.write(st, loc, w, e)
            return ('L', loc)
        if n == 'set' and not a:
            self.write(st, loc, ('allones',), e)
            return ('L', loc)
        if n == 'reset' and not a:
            self.write(st, loc, ('zero',), e)
            return ('L', loc)
        if n == 'flip' and not a:
            self.write(st, loc, v[1] if v[0] == 'bnot' else ('bnot', v), e)
            return ('L', loc)
        if n in ('set', 'reset', 'flip'):
            i = self.ev(a[0], st)
            self.log_idx(st, n, loc, i, e, 'bitset')
            l = ('i', loc, i)
            if n == 'flip':
                x = not_(truth(self.read(st, l)))
            elif n == 'reset':
                x = FALSE
            else:
                x = truth(self.ev(a[1], st)) if len(a) > 1 else TRUE
            self.write(st, l, x, e)
            return ('L', loc)
        if n == 'count':
            return ('V', ('popcount', v))
        if n == 'any':
            return ('V', not_(eq(('popcount', v), ZERO)))
        if n == 'none':
            return ('V', eq(('popcount', v), ZERO))
        if n in ('to_ulong', 'to_ullong'):
            return ('V', ('toint', v))
        if n == 'size':
            m = re.search(r'bitset<(\d+)>', (e['obj'].get('t') or {}).get('t', ''))
            return ('V', N(int(m.group(1))) if m else ('size', v))
        return None

    def log_idx(self, st, how, loc, i, e, kind):
        if not self.trial:
            self.emit('idx', st, {'how': how, 'base': loc, 'index': i, 'kind': kind, 'size': None if kind == 'bitset' else self.size(self.read(st, loc))}, e)

    def container(self, e, st, n, op, cls):
        obj, a = e['obj'], e['a']
        loc = self.pointee(self.ev(obj, st)) if e.get('arrow') else self.lv(obj, st)
        if loc[0] == 'lit':
            pass
        if op == '[]' or n == 'at':
            i = self.ev(a[0], st)
            self.log_idx(st, 'at' if n == 'at' else '[]', loc, i, e, cls)
            return ('L', ('i', loc, i))
        if n == 'insert_or_assign' and len(a) == 2:
            k = self.ev(a[0], st)
            self.write(st, ('i', loc, k), self.ev(a[1], st), e)
            return ('V', ('void',))
        v = self.read(st, loc)
        if n == 'size' or n == 'length':
            if cls == 'std::array':
                m = re.search(r',\s*(\d+)>$', (obj.get('t') or {}).get('t', ''))
                if m:
                    return ('V', N(int(m.group(1))))
            return ('V', self.size(v))
        if n == 'empty':
            return ('V', eq(self.size(v), ZERO))
        if n in ('begin', 'cbegin'):
            return ('V', ('it', loc, ZERO))
        if n in ('end', 'cend'):
            if cls == 'std::array':
                m = re.search(r',\s*(\d+)>$', (obj.get('t') or {}).get('t', ''))
                if m:
                    return ('V', ('it', loc, N(int(m.group(1)))))
            return ('V', ('it', loc, self.size(v)))
        if n == 'front':
            return ('L', ('i', loc, ZERO))
        if n == 'back':
            return ('L', ('i', loc, sub(self.size(v), ONE)))
        if n == 'data':
            return ('V', ('addr', ('i', loc, ZERO)))
        if n == 'capacity':
            return ('V', ('capacity', v))
        if cls.startswith('std::basic_string'):
            r = self.strcall(n, v, a, st) if v[0] == 'str' else None
            return ('V', r) if r is not None else None
        if n in ('push_back', 'emplace_back', 'push_front', 'pop_front', 'pop_back', 'clear', 'resize', 'reserve', 'insert', 'erase', 'emplace', 'assign', 'fill', 'swap', 'shrink_to_fit', 'emplace_front', 'flip'):
            args = tuple(self.ev(x, st) for x in a)
            if n == 'erase' and len(args) == 1 and 'map' in cls and 'multi' not in cls:
                k = args[0][3] if args[0][0] == 'fnd' else args[0]
                h = ('has', ('i', v, k))
                self.emit('mut', st, {'method': n, 'loc': loc, 'args': [k], 'old': v}, e)
                self.write(st, loc, ite(h, ('m', 'erase', v, (k,)), v), e, silent=True)
                return ('V', ('void',) if args[0][0] == 'fnd' else ite(h, ONE, ZERO))
            self.emit('mut', st, {'method': n, 'loc': loc, 'args': list(args), 'old': v}, e)
            if n == 'insert' and len(args) == 3 and all(x[0] == 'it' for x in args) and args[0] == ('it', loc, self.size(v)) and args[1][1] == args[2][1]:
                self.write(st, loc, ('m', 'append', v, (self.read(st, args[1][1]), args[1][2], args[2][2])), e, silent=True)
                return ('V', ('it', loc, self.size(v)))
            if n == 'emplace_back' and len(args) == 1:
                n = 'push_back'
            if n == 'clear':
                self.write(st, loc, ('list', ()), e, silent=True)
            elif n == 'fill' and len(args) == 1 and cls == 'std::array':
                self.write(st, loc, ('fill', self.size(v) if not (m := re.search(r', ?(\d+)>$', (obj.get('t') or {}).get('t', ''))) else N(int(m.group(1))), args[0]), e, silent=True)
            elif n in ('reserve', 'shrink_to_fit'):
                pass
            elif n == 'push_back' and v[0] == 'list':
                self.write(st, loc, ('list', v[1] + args), e, silent=True)
            elif n == 'assign' and len(args) == 2 and (a[0].get('t') or {}).get('k') not in ('u', 'i', 'b'):
                def parts(p):
                    if p[0] == 'it':
                        return p[1], p[2]
                    p = self.pointee(p)
                    return (p[1], p[2]) if p[0] == 'i' else (p, N(0))
                (b, lo), (b2, hi) = parts(args[0]), parts(args[1])
                cnt = num(sub(hi, lo)) if b == b2 else None
                if self.concrete and cnt is not None and 0 <= cnt <= self.concrete:
                    self.write(st, loc, ('list', tuple(self.read(st, ('i', b, add(lo, N(j)))) for j in range(int(cnt)))), e, silent=True)
                elif b == b2:
                    self.write(st, loc, ('slice', b, lo, hi), e, silent=True)
                else:
                    self.write(st, loc, ('m', n, v, args), e, silent=True)
            elif n in ('assign',) and len(args) == 2:
                self.write(st, loc, ('fill', args[0], args[1]), e, silent=True)
            else:
                self.write(st, loc, ('m', n, v, args), e, silent=True)
            if n in ('emplace_back', 'push_back'):
                return ('L', ('i', loc, self.size(v)))
            return ('V', ('void',))
        if n in ('find', 'count', 'contains'):
            args = tuple(self.ev(x, st) for x in a)
            if len(args) == 1 and 'map' in cls:
                h = ('has', ('i', v, args[0]))
                if n == 'find':
                    return ('V', ('fnd', loc, v, args[0]))
                return ('V', ite(h, ONE, ZERO) if n == 'count' else h)
            if n == 'count' and len(args) == 1 and 'set' in cls:
                return ('V', ite(('has', ('i', v, args[0])), ONE, ZERO))
            return ('V', ('c', n, v, args))
        return None

    # ------------------------------------------------------------------ function invocation
    def invoke(self, fn, this, args, st, node, prebind=None):
        caller = self.frame
        fr = Frame(fn, this)
        if fn.get('lambda') and caller is not None:
            pass
        fr.base = len(st.ctx)
        if prebind:
            fr.bind.update(prebind)
        self.inlined.add(fn['f'])
        self.stack.append(fn)
        self.nodes.append(id(node))
        self.frame = fr
        try:
            for p, a in zip(fn['params'], args):
                if a[0] == 'L':
                    fr.bind[p['id']] = a[1]
                    if not p['t'].get('ref') and caller is not None:
                        l = self.new()
                        self.write(st, l, self.read(st, a[1]))
                        fr.bind[p['id']] = l
                else:
                    l = self.new()
                    self.write(st, l, a[1])
                    fr.bind[p['id']] = l
            if fn.get('ctor'):
                self.ctor_inits(fn, st)
            out = self.stmt(fn['body'], st)
            ctx0 = st.ctx[:fr.base] if False else None
            rets = fr.returns
            res = self.join_returns(fn, rets, out, fr.base)
            return res
        finally:
            self.stack.pop()
            self.nodes.pop()
            self.frame = caller

    def ctor_inits(self, fn, st):
        this = self.frame.this
        for i in fn.get('inits') or []:
            e = i['e']
            if 'm' in i:
                if e['k'] == 'none':
                    continue
                if i['t'].get('ref'):
                    st.store[('f', this, i['m'])] = self.read(st, self.lv(e, st))
                    continue
                v = self.ev(e, st)
                if v == ('undef',) and e['k'] == 'ctor' and not e['a']:
                    continue
                if i['t'].get('k') == 'f' or True:
                    self.write(st, ('f', this, i['m']), v, e, silent=(e['k'] == 'ctor' and v == ('undef',)))
            elif 'base' in i or i.get('deleg'):
                if e['k'] == 'ctor':
                    if (e.get('copy') or e.get('move')) and len(e['a']) == 1:
                        v = self.ev(e['a'][0], st)
                        self.write(st, this, v, e, silent=True)
                        continue
                    f2 = self.F.functions.get(e['f'])
                    if f2 is not None:
                        a2 = [self.arg(a, p, st) for a, p in zip(e['a'], f2['params'])]
                        r, s2 = self.invoke(f2, this, a2, st, e)
                        st.store, st.ctx = s2.store, s2.ctx

    def join_returns(self, fn, rets, out, base):
        """rets: [(state, ('L'|'V', term))] in program order; out: normally completing state or None"""
        alts = list(rets)
        if out is not None:
            alts.append((out, ('V', ('void',))))
        if not alts:
            # never returns normally
            s = State({}, (('dead',),))
            s.ctx = self._deadctx
            return ('V', ('void',)), s
        if len(alts) == 1:
            s, r = alts[0]
            return r, s
        # conditions: guard of each alternative relative to the function entry
        cur_s, cur_r = alts[-1]
        for s, r in reversed(alts[:-1]):
            c = and_(*[x for x in s.ctx[base:] if x[0] not in ('loop', 'dead')])
            inloop = any(x[0] == 'loop' for x in s.ctx[base:])
            if inloop:
                lp = [x for x in s.ctx[base:] if x[0] == 'loop']
                cond = c
                for x in reversed(lp):
                    cond = ('pred', 'any', x[1], x[2], cond)
                val = lambda t: ('first', tuple((x[1], x[2]) for x in lp), c, t)
                m = State(Store(cur_s.store), cur_s.ctx)
                rv = r[1]
                rv = val(rv) if any(mentions(rv, lambda z, x=x: z == x[1]) for x in lp) else rv
                if r[0] == 'L' or cur_r[0] == 'L':
                    rr = ('V', ite(cond, rv if r[0] == 'V' else self.read(s, r[1]), cur_r[1] if cur_r[0] == 'V' else self.read(cur_s, cur_r[1])))
                else:
                    rr = ('V', ite(cond, rv, cur_r[1]))
                cur_s, cur_r = m, rr
                continue
            m = self.merge(c, s, cur_s)
            if r[0] == 'L' and cur_r[0] == 'L':
                nr = r if r[1] == cur_r[1] else ('L', ('ite', c, r[1], cur_r[1]))
            else:
                x = r[1] if r[0] == 'V' else self.read(s, r[1])
                y = cur_r[1] if cur_r[0] == 'V' else self.read(cur_s, cur_r[1])
                nr = ('V', ite(c, x, y))
            sc = and_(*[x for x in cur_s.ctx[base:] if x[0] not in ('loop', 'dead')])
            both = or_(c, sc)
            m.ctx = s.ctx[:base] + (() if both == TRUE else (both,))
            cur_s, cur_r = m, nr
        return cur_r, cur_s

    # ------------------------------------------------------------------ statements
    def stmt(self, s, st):
        """returns the normally completing state or None"""
        k = s['k']
        if k == 'block':
            for x in s['b']:
                st = self.stmt(x, st)
                if st is None:
                    return None
            return st
        if k == 'nop':
            return st
        if k == 'expr':
            e = s['e']
            if e['k'] == 'call':
                self.call(e, st)
            else:
                self.ev(e, st)
            return self.alive(st)
        if k == 'decl':
            for v in s['d']:
                self.vardecl(v, st)
            return self.alive(st)
        if k == 'return':
            if 'e' in s:
                if self.frame.fn['ret'].get('ref') and s['e'].get('lv'):
                    r = ('L', self.lv(s['e'], st))
                else:
                    r = ('V', self.ev(s['e'], st))
                    if self.frame.fn['ret'].get('k') == 'b':
                        r = ('V', truth(r[1]) if r[1][0] not in ('ite',) else r[1])
            else:
                r = ('V', ('void',))
            if self.alive(st) is not None:
                self.frame.returns.append((st, r))
            return None
        if k == 'if':
            return self.ifstmt(s, st)
        if k in ('for', 'while', 'do', 'forrange'):
            return self.loop(s, st)
        if k == 'switch':
            return self.switch(s, st)
        if k == 'break':
            self.frame.loops[-1]['breaks'].append(st)
            return None
        if k == 'continue':
            for l in reversed(self.frame.loops):
                if l['kind'] == 'loop':
                    l['conts'].append(st)
                    break
            return None
        if k == 'try':
            return self.trystmt(s, st)
        self.unk('stmt ' + s.get('cls', k), s)
        return st

    def alive(self, st):
        if st.ctx and st.ctx[-1] == ('dead',):
            self._deadctx = st.ctx
            return None
        return st

    def vardecl(self, v, st):
        t = v['t']
        if t.get('ref') and 'init' in v:
            self.frame.bind[v['id']] = self.lv(v['init'], st)
        elif v.get('static'):
            self.frame.bind[v['id']] = ('g', v.get('q', v['n']))
        else:
            l = self.new()
            self.frame.bind[v['id']] = l
            if t.get('k') == 'u' and t.get('w'):
                self.unsigned[l] = t['w']
            if 'init' in v:
                val = self.ev(v['init'], st)
                self.write(st, l, self.fix(val, t))
            else:
                st.store[l] = ('undef',)
        if v.get('bind'):
            for b in v['bind']:
                if 'init' in b:
                    self.frame.bind[b['id']] = self.lv(b['init'], st)
                    if 'hold' in b:
                        self.frame.bind[b['hold']] = self.frame.bind[b['id']]

    def ifstmt(self, s, st):
        if 'init' in s:
            st = self.stmt(s['init'], st)
            if st is None:
                return None
        if 'cv' in s:
            self.vardecl(s['cv'], st)
        c = truth(self.ev(s['c'], st))
        if self.alive(st) is None:
            return None
        if c[0] == 'b':
            if c[1]:
                return self.stmt(s['a'], st)
            return self.stmt(s['b'], st) if 'b' in s else st
        return self.fork(c, st, lambda x: self.stmt(s['a'], x), lambda x: self.stmt(s['b'], x) if 'b' in s else x)

    def fork(self, c, st, fa, fb):
        ctx = st.ctx
        sa, sb = st.copy(), st.copy()
        sa.ctx, sb.ctx = ctx + (c,), ctx + (not_(c),)
        ra = fa(sa)
        rb = fb(sb)
        if ra is None:
            return rb
        if rb is None:
            return ra
        m = self.merge(c, ra, rb)
        n = len(ctx)
        ga = and_(*[x for x in ra.ctx[n:]])
        gb = and_(*[x for x in rb.ctx[n:]])
        g = or_(ga, gb)
        m.ctx = ctx + (() if g == TRUE else (g,))
        return m

    def switch(self, s, st):
        if 'init' in s:
            st = self.stmt(s['init'], st)
        if 'cv' in s:
            self.vardecl(s['cv'], st)
        v = self.ev(s['c'], st)
        gs = s['g']
        labs = []
        for g in gs:
            labs.append([self.ev(l, st) for l in g['lab']])
        alll = [l for ls in labs for l in ls]
        en = (s['c'].get('t') or {}).get('t')
        exhaustive = False
        self.emit('switch', st, {'on': v, 'labels': alll, 'default': any(g['def'] for g in gs)}, s)

        def cond(i):
            cs = [eq(v, l) for l in labs[i]]
            if gs[i]['def']:
                cs.append(not_(or_(*[eq(v, l) for l in alll])))
            return or_(*cs)

        def run(i, state):
            self.frame.loops.append({'kind': 'switch', 'breaks': [], 'conts': []})
            j = i
            cur = state
            while j < len(gs) and cur is not None:
                for x in gs[j]['s']:
                    cur = self.stmt(x, cur)
                    if cur is None:
                        break
                j += 1
            info = self.frame.loops.pop()
            outs = info['breaks'] + ([cur] if cur is not None else [])
            return outs

        ctx = st.ctx
        n = len(ctx)
        alts = []
        for i in range(len(gs)):
            c = cond(i)
            if c == FALSE:
                continue
            x = st.copy()
            x.ctx = ctx + ((c,) if c != TRUE else ())
            alts += run(i, x)
            if c == TRUE:
                break
        rest = not_(or_(*[cond(i) for i in range(len(gs))]))
        if rest != FALSE and not any(g['def'] for g in gs):
            x = st.copy()
            x.ctx = ctx + (rest,)
            alts.append(x)
        return self.joinmany(alts, ctx)

    def joinmany(self, alts, ctx):
        alts = [a for a in alts if self.alive(a) is not None]
        if not alts:
            return None
        n = len(ctx)
        cur = alts[-1]
        curg = and_(*[x for x in cur.ctx[n:] if x[0] not in ('loop',)])
        for a in reversed(alts[:-1]):
            g = and_(*[x for x in a.ctx[n:] if x[0] not in ('loop',)])
            m = self.merge(g, a, cur)
            curg = or_(g, curg)
            m.ctx = ctx + (() if curg == TRUE else (curg,))
            cur = m
        if len(alts) == 1:
            cur.ctx = ctx + (() if curg == TRUE else (curg,))
        return cur

    def trystmt(self, s, st):
        ctx = st.ctx
        s0 = st.copy()
        nret = len(self.frame.returns)
        self.emit('try', st, {'types': [h['t'] for h in s['h']]}, s)
        depth = self.tries
        self.tries += 1
        out = self.stmt(s['b'], st)
        self.tries -= 1
        self.emit('endtry', s0, {}, s)
        alts = [out] if out is not None else []
        ntry = len(self.frame.returns)
        for i, h in enumerate(s['h']):
            x = s0.copy()
            x.ctx = ctx + (('pred', 'caught', h['t'], i) + ((depth,) if depth else ()) + tuple(c[1] for c in ctx if c[0] == 'loop'),)
            if 'id' in h:
                self.frame.bind[h['id']] = ('s', 'exc')
            r = self.stmt(h['b'], x)
            if r is not None:
                alts.append(r)
        # the returns of the handlers take precedence over those of the block
        rs = self.frame.returns
        rs[nret:] = rs[ntry:] + rs[nret:ntry]
        if not alts:
            return None
        if len(alts) == 1:
            return alts[0]
        cur = alts[0]
        for a in alts[1:]:
            c = and_(*[y for y in a.ctx[len(ctx):] if y[0] not in ('loop', 'dead')])
            cur = self.merge(c, a, cur)
        cur.ctx = ctx
        return cur

    # ------------------------------------------------------------------ loops
    def ix(self):
        n = sum(1 for _ in self._loopctx)
        return ('ix', n)

    _loopctx = ()

    def counted(self, lo, hi, body, st, node, rev=False, post=None):
        """loop with a known index range; body(state, ix)"""
        lvl = sum(1 for x in st.ctx if x[0] == 'loop')
        ix = ('ix', lvl)
        dom = ('rng', lo, hi)
        if num(lo) is not None and num(hi) is not None and num(hi) <= num(lo):
            return st
        def tr(x):
            r = body(x, ix)
            return x if r is None or r is True else r
        pre = st.copy()
        lcs, ind = self.analyse(st, tr, ix)
        lcs = self.refine(pre, lcs, ind, sub(ix, lo), ctx0 := st.ctx + (('loop', ix, dom),), tr, ix)
        self.install(st, pre, lcs, ind, sub(ix, lo))
        ctx = st.ctx
        st.ctx = ctx0
        r = body(st, ix)
        fin = st if r is None or r is True else r
        out = State({}, ctx)
        self.finish(pre, fin, out, [(k, True) for k in lcs if k not in ind], ix, dom, ctx)
        for kk in ind:
            self.setlc(out, kk, pre, self.nthval(ind[kk], sub(hi, lo)))
        st.store, st.ctx = out.store, ctx
        return st

    def analyse(self, st, tr, ix=None):
        """(changed locations, induction variables {loc: (kind, step, start)}) of a loop body"""
        changed = self.changed_by(st, tr)
        lcs = {kk for kk, _ in changed}
        r = self.lastprobe
        return lcs, (self.inductions(st, lcs, r, ix) if r is not None else {})

    def silently(self, f):
        self.trial += 1
        nret = len(self.frame.returns) if self.frame else 0
        nu = len(self.unknown)
        uid0 = self.uid
        try:
            return f()
        finally:
            self.uid = uid0
            self.trial -= 1
            if self.frame:
                del self.frame.returns[nret:]
            del self.unknown[nu:]

    def inductions(self, pre, lcs, r, ix=None):
        ind = {}

        def known(c):
            """result of a call made before the loop"""
            return any(k[0] == 'v' and k not in lcs and mentions(v, lambda y: y == c) for k, v in pre.store.items())
        for kk in lcs:
            if mentions(kk[1] if kk[0] == 'forall' else kk, lambda y: y == ix or (y[0] == 'lc' and y[1] in lcs)):
                continue        # another location in every iteration
            f = r.store.get(kk)
            p0 = pre.store.get(kk)
            if p0 is None and kk[0] != 'forall':
                p0 = self._base(pre, kk)
            if f is None or p0 is None:
                continue
            if f[0] == 'it' and p0[0] == 'it' and f[1] == p0[1]:
                x, start = f[2], p0[2]
            elif f[0] == 'addr' and p0[0] == 'addr' and f[1][0] == 'i' and p0[1][0] == 'i' and f[1][1] == p0[1][1]:
                x, start = f[1][2], p0[1][2]
            elif f[0] in ('agg', 'it', 'lam', 'm', 'list', 'str', 'addr', 'some', 'none', 'unk', 'null') or p0[0] in ('undef', 'agg', 'lam', 'm', 'addr', 'list', 'str', 'some', 'none', 'null') or is_bool(f):
                continue
            else:
                x, start = f, p0
            sym = ('lc', kk)
            d = sub(x, sym)
            if num(d) is not None and num(d) != 0:
                ind[kk] = ('lin', num(d), start)
                continue
            if d != ZERO and not mentions(d, lambda y: y[0] == 'lc' or y[0] == 'ix') and not mentions(d, lambda y: y[0] in ('unk', 'undef', 'ite', 'out') or y[0] == 'c' and not known(y)):
                ind[kk] = ('lin', d, start)
                continue
            if x[0] == '+' and len(x[1]) == 1 and x[1][0][0] == ((sym, 1),):
                c = x[1][0][1]
                if c > 1 and c.denominator == 1 and (int(c) & (int(c) - 1)) == 0:
                    ind[kk] = ('geo', int(c).bit_length() - 1, start)
            elif x[0] == 'idiv' and x[1] == sym and num(x[2]) is not None and num(x[2]) > 1 and (int(num(x[2])) & (int(num(x[2])) - 1)) == 0:
                ind[kk] = ('geod', int(num(x[2])).bit_length() - 1, start)
        return ind

    def nthval(self, i, n):
        kind, d, start = i
        if kind == 'lin':
            return add(start, mul(d if isinstance(d, tuple) else N(d), n))
        if kind == 'geo':
            return shl(start, mul(N(d), n))
        return shr(start, mul(N(d), n))

    def install(self, x, pre, lcs, ind, nth):
        for kk in lcs:
            x.store[kk] = self.havoc(kk, None, pre)
        for kk, i in ind.items():
            if nth is not None:
                self.setlc(x, kk, pre, self.nthval(i, nth))

    def refine(self, pre, lcs, ind, nth, ctx, tr, ix=None, full=False):
        """the set of changed locations, named with the induction variables resolved"""
        def elem(k):
            return k[0] == 'forall' or any(True for _ in indices(k))
        keep = {k for k in lcs if not elem(k)} | set(ind)
        if len(keep) == len(lcs) and not full:
            return keep
        for _ in range(5):
            x = pre.copy()
            self.install(x, pre, keep, ind, nth)
            x.ctx = ctx
            base = dict(x.store)
            self.trial += 1
            nret = len(self.frame.returns)
            nu = len(self.unknown)
            uid0 = self.uid
            try:
                r = tr(x)
                outs = [y[0] for y in self.frame.returns[nret:]]
            finally:
                self.uid = uid0
                self.trial -= 1
                del self.frame.returns[nret:]
                del self.unknown[nu:]
            fresh = set()
            for s2 in ([r] if isinstance(r, State) else []) + [o for o in outs if o is not None]:
                for k, v in s2.store.items():
                    rk = root(k[1]) if k[0] == 'forall' else root(k)
                    if rk[0] == 'v' and rk[1] > uid0:
                        continue
                    if k in keep:
                        continue
                    if k not in base or base[k] != v:
                        fresh.add(k)
            if not fresh:
                break
            keep |= fresh
            if ix is not None and all(elem(k) and mentions(k[1] if k[0] == 'forall' else k, lambda y: y == ix) for k in fresh):
                break       # every element is touched by its own iteration only
        return keep

    def _loop_frame(self):
        pass

    def havoc(self, k, old, pre):
        v = pre.store.get(k)
        if v is not None and v[0] == 'it':
            return ('it', v[1], ('lc', k))
        if v is not None and v[0] == 'addr' and v[1][0] == 'i' and k[0] == 'v':
            return ('addr', ('i', v[1][1], ('lc', k)))
        return ('lc', k)

    def changed_by(self, st, body, ix=None):
        """keys of pre-existing locations whose value the body changes (fixpoint on a havocked copy)"""
        changed = {}
        for _ in range(4):
            t = st.copy()
            for k in changed:
                t.store[k] = self.havoc(k, None, st)
            base = dict(t.store)
            self.trial += 1
            save = (len(self.unknown),)
            nret = len(self.frame.returns) if self.frame else 0
            uid0 = self.uid
            self.brkstates = []
            try:
                r = body(t)
            finally:
                self.uid = uid0
                self.trial -= 1
            if self.frame:
                outs = [x[0] for x in self.frame.returns[nret:]] + self.brkstates
                del self.frame.returns[nret:]
            else:
                outs = []
            del self.unknown[save[0]:]
            fresh = set()
            states = [r if isinstance(r, State) else t] + outs
            for s2 in states:
                if s2 is None:
                    continue
                for k, v in s2.store.items():
                    if k[0] == 'v' and k[1] > uid0:
                        continue
                    if k[0] != 'forall' and root(k)[0] == 'v' and root(k)[1] > uid0:
                        continue
                    if k in changed:
                        continue
                    if k not in base or base[k] != v:
                        fresh.add(k)
                for k in base:
                    if k not in s2.store and k not in changed and k[0] != 'forall':
                        fresh.add(k)
            if not fresh:
                self.lastprobe = r if isinstance(r, State) else t
                break
            for k in fresh:
                changed[k] = True
        else:
            self.lastprobe = None
        return list(changed.items())

    def finish(self, pre, fin, st, changed, ix, dom, ctx, brk=None, rev=False):
        """state after the loop from the state after one generic iteration"""
        out = State(Store(fin.store), ctx)
        subst_lc = {}
        lcs = {k for k, _ in changed}

        def has_lc(t):
            return mentions(t, lambda x: x[0] == 'lc' and x[1] in lcs)

        fins = {}
        for k in lcs:
            if k[0] == 'forall':
                continue
            fins[k] = fin.store.get(k)
        # elements touched by their own iteration only: their value at the start of the iteration is the one before the loop
        own = {}
        mine = [k for k in lcs if k[0] != 'forall' and mentions(k, lambda x: x == ix)]
        for k in mine:
            if not any(k2 != k and k2[0] != 'forall' and shape(k2) == shape(k) for k2 in lcs):
                own[('lc', k)] = self._base(pre, k)
        def recur(k, upto=None):
            """value of a scalar after the loop (or before iteration upto) as a recurrence over everything it depends on"""
            if brk is not None or dom[0] != 'rng' or ix[1].__class__ is not int:
                return None
            ix2 = ('ix', ('r', ix[1]))
            order, steps, inits = [k], [], []
            for q in order:
                if q[0] == 'forall' or mentions(q, lambda x: x == ix):
                    return None
                f = fins.get(q)
                f = subst(self._base(fin, q) if f is None else f, own)
                p0 = pre.store[q] if q in pre.store else self._base(pre, q)
                if mentions(f, lambda x: x[0] not in SCALAR and not (x[0] == 'lc' and x[1] in lcs)) or mentions(p0, lambda x: x[0] not in SCALAR and x[0] != 'lc'):
                    return None
                for kk in lcs:
                    if kk not in order and mentions(f, lambda x: x == ('lc', kk)):
                        order.append(kk)
                steps.append(('trunc', self.unsigned[q], f) if q in self.unsigned else f)
                inits.append(p0)
                if len(order) > 4:
                    return None
            m = {('lc', q): ('rv', ix2, j) for j, q in enumerate(order)}
            m[ix] = sub(add(dom[1], dom[2]), add(ix2, ONE)) if rev else ix2
            hi = dom[2]
            if upto is not None:
                hi = sub(add(dom[1], dom[2]), add(upto, ONE)) if rev else upto
            return ('recur', ix2, ('rng', dom[1], hi), tuple(subst(f, m) for f in steps), tuple(inits))

        def carried(f):
            m = {}
            for kk in lcs:
                if mentions(f, lambda x: x == ('lc', kk)):
                    r = recur(kk, ix)
                    if r is None:
                        return f
                    m[('lc', kk)] = r
            return subst(f, m)

        for k in [k for k in out.store if k[0] == 'forall' and k not in pre.store]:
            # pattern of an inner loop: repeated for every iteration of this one
            if mentions(k[1], lambda x: x == ix) and k[2] != ix and k[3][0] == 'rng' and dom[0] == 'rng' and not mentions(out.store[k], lambda x: x[0] == 'lc'):
                v = out.store.pop(k)
                out.store[k[:3] + (k[3][:3] + ((k[3][3] if len(k[3]) > 3 else ()) + ((ix, dom),),),)] = v
        for k in list(lcs):
            if k[0] == 'forall':
                continue
            f = fins[k]
            if f is None:
                f = self._base(fin, k)
            p0 = pre.store[k] if k in pre.store else self._base(pre, k)
            if mentions(k, lambda x: x == ix):
                # element-wise write
                out.store.pop(k, None)
                if not has_lc(f):
                    self.putforall(out, ('forall', k, ix, dom), f)
                elif f != ('lc', k):
                    # own previous value: in-place update of each element once
                    f2 = subst(f, {('lc', k): self._base(pre, k)})
                    if has_lc(f2):
                        f2 = carried(f2)
                    if not has_lc(f2):
                        self.putforall(out, ('forall', k, ix, dom), f2)
                    else:
                        self.putforall(out, ('forall', k, ix, dom), ('loopv', ix, dom, f2))
                continue
            lcsym = ('lc', k)
            wrap = None
            if own and has_lc(f):
                f = subst(f, own)
            if f[0] == 'ite' and f[2] == TRUE and f[3] == lcsym:
                f = or_(f[1], lcsym)
            if f[0] == 'it' and p0[0] == 'it' and f[1] == p0[1]:
                wrap = ('it', f[1])
                f, p0 = f[2], p0[2]
            if f == lcsym:
                out.store[k] = (wrap + (p0,)) if wrap else p0
                continue
            if f[0] not in ('agg', 'it', 'lam', 'str', 'm', 'list', 'some', 'none') and p0[0] not in ('agg', 'it', 'lam', 'str', 'm', 'list', 'some', 'none', 'undef'):
                d = sub(f, lcsym)
                if not has_lc(d):
                    r = add(p0, self.mksum(ix, dom, d))
                    out.store[k] = (wrap + (r,)) if wrap else r
                    continue
            if not has_lc(f) and brk is None:
                # last iteration value, if the loop runs at all
                if not mentions(f, lambda x: x == ix):
                    if dom[0] == 'rng':
                        ne = lt(dom[1], dom[2], True)
                        out.store[k] = ite(ne, f, p0)
                        continue
            # or-accumulation: x = x || e
            if is_bool(f) or f[0] in ('or', 'and'):
                if f[0] == 'or' and lcsym in f[1]:
                    rest = or_(*[x for x in f[1] if x != lcsym])
                    if not has_lc(rest):
                        out.store[k] = or_(truth(p0), ('pred', 'any', ix, dom, rest))
                        continue
                if f[0] == 'and' and lcsym in f[1]:
                    rest = and_(*[x for x in f[1] if x != lcsym])
                    if not has_lc(rest):
                        out.store[k] = and_(truth(p0), not_(('pred', 'any', ix, dom, not_(rest))))
                        continue
            r = None if wrap else recur(k)
            if r is not None:
                out.store[k] = r
                continue
            sub_m = {}
            for j, kk in enumerate(sorted(lcs, key=repr)):
                sub_m[('lc', kk)] = ('lcv', 0 if kk == k else 1 + j)
            init = p0
            f = subst(f, sub_m)
            if rev and dom[0] == 'rng':
                # written as if running upwards
                f = subst(f, {ix: sub(add(dom[1], dom[2]), add(ix, ONE))})
            out.store[k] = ('loopv', ix, dom, f, init)
        st.store, st.ctx = out.store, ctx

    def putforall(self, st, fk, val):
        """pattern write: elements written individually before are overwritten where the pattern covers them"""
        s = st.store
        sh = shape(fk[1])
        for k in [k for k in s if k[0] == 'i' and k[1] != fk[1][1:] and shape(k) == sh and not mentions(k, lambda x: x == fk[2])]:
            c, v = self._match_forall(fk, k, val)
            if c is None:
                s[k] = ('unk', 'alias')
            elif c != FALSE:
                s[k] = ite(c, v, s[k])
        s.pop(fk, None)
        s[fk] = val

    def mksum(self, ix, dom, d):
        if d == ZERO:
            return ZERO
        if not mentions(d, lambda x: x == ix):
            if dom[0] == 'rng':
                n = sub(dom[2], dom[1])
                c = num(n)
                if c is not None:
                    return mul(d, N(max(c, 0)))
                if num(dom[1]) == 0:
                    return mul(d, n)
            return mul(d, ('sum', ix, dom, ONE))
        # linearity: pull out constant factors per monomial
        p = T._topoly(d)
        acc = ZERO
        groups = {}
        for m, c in p.items():
            ins = tuple((x, e) for x, e in m if mentions(x, lambda y: y == ix))
            outs = tuple((x, e) for x, e in m if not mentions(x, lambda y: y == ix))
            term = T._frompoly({ins: 1})
            w = T._frompoly({outs: c})
            if term == ONE:
                acc = add(acc, mul(w, self.mksum(ix, dom, ONE)))
            else:
                acc = add(acc, mul(w, ('sum', ix, dom, term)))
        return acc

    def loop(self, s, st):
        k = s['k']
        if k == 'forrange':
            return self.forrange(s, st)
        if 'init' in s:
            st = self.stmt(s['init'], st)
            if st is None:
                return None
        lvl = sum(1 for x in st.ctx if x[0] == 'loop')
        ix = ('ix', lvl)
        if self.concrete:
            r = self.concreteloop(s, st)
            if r is not None:
                return r

        def cond(x):
            if 'cv' in s:
                self.vardecl(s['cv'], x)
            return truth(self.ev(s['c'], x)) if 'c' in s else TRUE

        def iteration(x, before=True):
            """one iteration; returns (state after, guard cond)"""
            c = TRUE
            if k != 'do':
                c = cond(x)
            self.frame.loops.append({'kind': 'loop', 'breaks': [], 'conts': []})
            base = x.ctx
            r = self.stmt(s['b'], x)
            info = self.frame.loops.pop()
            outs = info['conts'] + ([r] if r is not None else [])
            r = self.joinmany(outs, base) if outs else None
            if r is not None and 'inc' in s:
                self.ev(s['inc'], r)
            return r, c, info['breaks']

        if k == 'do':
            # body once, then while
            self.frame.loops.append({'kind': 'loop', 'breaks': [], 'conts': []})
            base = st.ctx
            r = self.stmt(s['b'], st)
            info = self.frame.loops.pop()
            outs = info['conts'] + ([r] if r is not None else [])
            st = self.joinmany(outs, base) if outs else None
            brk0 = info['breaks']
            if st is None:
                return self.joinmany(brk0, base) if brk0 else None
            res = self.loop({'k': 'while', 'c': s['c'], 'b': s['b'], 'l': s.get('l')}, st)
            if brk0:
                return self.joinmany(brk0 + ([res] if res is not None else []), base)
            return res

        # 1. what does the body change?
        def tr(x):
            r, c, b = iteration(x)
            self.brkstates = list(b)
            if r is None and b:
                return b[0]
            return r if r is not None else x
        site = (tuple(id(x) for x in self.stack), id(s))
        hit = self.loopcache.get(site)
        pre = st.copy()
        if hit is not None:
            lcs0, ind0 = hit
            st0, ne, nr, nu, uid0 = st.copy(), len(self.events), len(self.frame.returns), len(self.unknown), self.uid

            def probe():
                t = pre.copy()
                for kk in lcs0:
                    t.store[kk] = self.havoc(kk, None, pre)
                t0 = dict(t.store)
                c0 = cond(t) if k != 'do' else TRUE
                return c0, {kk for kk in lcs0 if t.store.get(kk) != t0.get(kk)}
            c0, condchanges = self.silently(probe)
            ind = {}
            for kk, (kind, d) in ind0.items():
                p0 = pre.store.get(kk)
                if p0 is None:
                    ind = None
                    break
                if p0[0] == 'it':
                    p0 = p0[2]
                elif p0[0] == 'addr':
                    p0 = p0[1][2]
                ind[kk] = (kind, d, p0)
            if ind is not None:
                out = self.loop2(s, st, pre, set(lcs0), ind, c0, condchanges, iteration, tr, ix, check=True)
                if out != 'retry':
                    return out
            del self.events[ne:]
            del self.frame.returns[nr:]
            del self.unknown[nu:]
            self.uid = uid0
            st = st0
            pre = st.copy()
        changed = self.changed_by(st, tr)
        lcs = {kk for kk, _ in changed}
        # 2. induction variables
        t = st.copy()
        for kk in lcs:
            t.store[kk] = self.havoc(kk, None, pre)

        def probe():
            t2 = t.copy()
            c0 = cond(t2) if k != 'do' else TRUE
            r, c, brks = iteration(t)
            return t2, c0, r
        t0 = dict(t.store)
        t2, c0, r = self.silently(probe)
        condchanges = {kk for kk in lcs if t2.store.get(kk) != t0.get(kk)}
        ind = self.inductions(pre, lcs, r) if r is not None else {}
        self.loopcache[site] = ({kk for kk in lcs if kk[0] != 'forall' and not indices(kk)} | set(ind), {kk: (v[0], v[1]) for kk, v in ind.items()})
        self.t2 = t2
        return self.loop2(s, st, pre, lcs, ind, c0, condchanges, iteration, tr, ix)

    def concreteloop(self, s, st):
        """a loop whose condition is decided in every iteration is executed iteration by iteration"""
        if s['k'] == 'do' or 'c' not in s or 'cv' in s:
            return None
        mark = len(self.events), len(self.frame.returns), len(self.unknown), self.uid
        x = st.copy()
        for n in range(self.concrete + 1):
            c = truth(self.ev(s['c'], x))
            if c == FALSE:
                return x
            if c != TRUE or n == self.concrete:
                break
            self.frame.loops.append({'kind': 'loop', 'breaks': [], 'conts': []})
            base = x.ctx
            r = self.stmt(s['b'], x)
            info = self.frame.loops.pop()
            if info['breaks']:
                break
            outs = info['conts'] + ([r] if r is not None else [])
            x = self.joinmany(outs, base) if outs else None
            if x is None:
                break
            if 'inc' in s:
                self.ev(s['inc'], x)
        del self.events[mark[0]:]
        del self.frame.returns[mark[1]:]
        del self.unknown[mark[2]:]
        self.uid = mark[3]
        return None

    def loop2(self, s, st, pre, lcs, ind, c0, condchanges, iteration, tr, ix, check=False):
        k = s['k']
        # 3. domain from the condition
        dom = None
        primary = None
        extra = TRUE

        def lcfree(x):
            return not mentions(x, lambda y: y[0] == 'lc' and y[1] in lcs)

        for kk, (kind, d, start) in ind.items():
            if kind != 'lin' or isinstance(d, tuple):
                continue
            sym = ('lc', kk)
            cs = c0[1] if c0[0] == 'and' else (c0,)
            for ci in cs:
                rest = [x for x in cs if x is not ci]
                lo = hi = None
                rev = False
                body_delta = ZERO
                if kk in condchanges:
                    # the condition itself steps the variable (while (n-- > 0))
                    pass
                x = ci
                # forms: lt(sym+a, B), lt(B, sym+a), not lt(..), not eq(sym+a, B)
                def lin(tm):
                    q = sub(tm, sym) if tm[0] not in ('it', 'addr', 'str', 'null') else None
                    return q if q is not None and lcfree(q) else None
                if x[0] == 'lt' and lcfree(x[2]) and lin(x[1]) is not None and d > 0:
                    lo, hi = start, sub(x[2], lin(x[1]))
                elif x[0] == 'not' and x[1][0] == 'lt' and lcfree(x[1][1]) and lin(x[1][2]) is not None and d > 0:
                    lo, hi = start, add(sub(x[1][1], lin(x[1][2])), ONE)
                elif x[0] == 'not' and x[1][0] == 'eq' and d in (1, -1):
                    u, v = x[1][1], x[1][2]
                    for p, q in ((u, v), (v, u)):
                        if lcfree(q) and lin(p) is not None:
                            bound = sub(q, lin(p))
                            if d == 1:
                                lo, hi = start, bound
                            else:
                                lo, hi, rev = add(bound, ONE), add(start, ONE), True
                            break
                elif x[0] == 'lt' and lcfree(x[1]) and lin(x[2]) is not None and d == -1:
                    lo, hi, rev = add(sub(x[1], lin(x[2])), ONE), add(start, ONE), True
                elif x[0] == 'not' and x[1][0] == 'lt' and lcfree(x[1][2]) and lin(x[1][1]) is not None and d == -1:
                    lo, hi, rev = sub(x[1][2], lin(x[1][1])), add(start, ONE), True
                if lo is not None:
                    if d == 1 and not rev:
                        # further upper bounds of the same variable
                        more = []
                        for y in rest:
                            if y[0] == 'lt' and lcfree(y[2]) and lin(y[1]) is not None:
                                h2 = sub(y[2], lin(y[1]))
                                hi = ite(lt(h2, hi), h2, hi)
                            else:
                                more.append(y)
                        rest = more
                    # conditions that do not change while the loop runs: all iterations or none
                    inv = [y for y in rest if lcfree(y)]
                    if inv:
                        rest = [y for y in rest if not lcfree(y)]
                        hi = ite(and_(*inv), hi, lo)
                    if d == 1 or rev:
                        dom = ('rng', lo, hi)
                        primary = (kk, rev, N(1))
                    else:
                        # stride d: index j in [0, ceil((hi-lo)/d))
                        cnt = idiv(add(sub(hi, lo), N(d - 1)), N(d))
                        dom = ('rng', ZERO, cnt)
                        primary = (kk, 'stride', N(d))
                    extra = and_(*rest)
                    break
            if dom:
                break
        ctx = st.ctx
        cur = st
        if dom is None:
            lm = {}
            for j, kk in enumerate(sorted(lcs, key=repr)):
                lm[('lc', kk)] = ('lcv', j)
            dom = ('while', subst(c0, lm))
            nth = ix
        else:
            kk, mode, stp = primary
            start = ind[kk][2]
            nth = sub(start, ix) if mode is True else (sub(ix, start) if mode is False else ix)
        if extra != TRUE:
            extra = truth(subst(extra, {('lc', kk): self.nthval(i, nth) for kk, i in ind.items()}))
        cctx = ctx + (('loop', ix, dom),) + (() if extra == TRUE else (extra if dom[0] == 'rng' else TRUE,))
        uid1 = self.uid
        lcs = self.refine(pre, lcs, ind, nth, cctx, tr, ix, check)
        self.install(cur, pre, lcs, ind, nth)
        # 4. the real, generic iteration
        if num(dom[1]) is not None and dom[0] == 'rng' and num(dom[2]) is not None and num(dom[2]) <= num(dom[1]):
            pre.ctx = ctx
            return pre
        cur.ctx = cctx
        base = dict(cur.store) if check else None
        r, c, brks = iteration(cur)
        if check:
            for s2 in [r] + list(brks):
                if s2 is None:
                    continue
                for kk, v in s2.store.items():
                    rk = root(kk[1]) if kk[0] == 'forall' else root(kk)
                    if (rk[0] == 'v' and rk[1] > uid1) or kk in lcs:
                        continue
                    if kk not in base or base[kk] != v:
                        self.dbg.append((s.get('l'), show(kk) if kk[0]!='forall' else kk)); return 'retry'
            if r is not None:
                for kk, i in ind.items():
                    want = self.nthval(i, add(nth, ONE))
                    x = r.store.get(kk)
                    if x is None:
                        self.dbg.append((s.get('l'), show(kk) if kk[0]!='forall' else kk)); return 'retry'
                    if x[0] == 'it':
                        x = x[2]
                    elif x[0] == 'addr' and x[1][0] == 'i':
                        x = x[1][2]
                    if x != want:
                        self.dbg.append((s.get('l'), show(kk) if kk[0]!='forall' else kk)); return 'retry'
        after = []
        if extra != TRUE and dom[0] == 'rng':
            brks = list(brks) + [None]
        if r is None and not brks:
            pre.ctx = ctx
            return pre      # body always leaves the function (or never returns)
        if r is None:
            fin = pre.copy()
        else:
            fin = r
        out = State({}, ctx)
        remaining = [(kk, True) for kk in lcs if kk not in ind or dom is None]
        brk = True if brks else None
        self.finish(pre, fin, out, remaining, ix, dom, ctx, brk, primary is not None and primary[1] is True)
        # induction variables after the loop
        for kk, (kind, d, start) in ind.items():
            if dom[0] == 'rng' and not brks:
                if primary[0] == kk and primary[1] is False:
                    end = ite(lt(dom[1], dom[2]), dom[2], dom[1]) if not (num(dom[1]) == 0) else dom[2]
                elif primary[0] == kk and primary[1] is True:
                    end = sub(dom[1], ONE)
                else:
                    end = self.nthval((kind, d, start), sub(dom[2], dom[1]))
                self.setlc(out, kk, pre, end)
            else:
                self.setlc(out, kk, pre, ('endv', ix, dom, d if isinstance(d, tuple) else N(d), start, or_(*([and_(*[y for y in b.ctx[len(ctx):] if y[0] not in ('loop', 'dead')]) for b in brks if b is not None] + ([not_(extra)] if None in brks else [])))))
        if brks:
            self.cutforall(pre, out, ix, dom)
            # values at a break: conditional updates become opaque unless the break state leaves them untouched
            g = or_(*[and_(*[y for y in b.ctx[len(ctx):] if y[0] not in ('loop', 'dead')]) for b in brks if b is not None])
            for kk in lcs:
                if kk in ind or kk[0] == 'forall':
                    continue
                v0 = out.store.get(kk)
                bvals = [b.store.get(kk) for b in brks if b is not None]
                p0 = pre.store.get(kk, kk)
                fv = r.store.get(kk) if r is not None else ('lc', kk)
                if fv == ('lc', kk) and bvals and None not in brks and all(bv == bvals[0] for bv in bvals) and bvals[0] is not None and not mentions(bvals[0], lambda y: y[0] == 'lc'):
                    # only assigned on the way out
                    val = bvals[0]
                    if mentions(val, lambda y: y == ix):
                        val = ('first', ((ix, dom),), g, val)
                    out.store[kk] = ite(('pred', 'any', ix, dom, g), val, p0)
                else:
                    out.store[kk] = ('loopx', ix, dom, g, v0 if v0 is not None else ('undef',), tuple(bv if bv is not None else ('undef',) for bv in bvals))
        out.ctx = ctx
        return out

    def cutforall(self, pre, out, ix, dom):
        """element-wise writes of a loop that may be left early: which elements are written is not tracked"""
        for k in list(out.store):
            if k[0] == 'forall' and (k not in pre.store or pre.store[k] != out.store[k]):
                out.store[k] = ('loopx', ix, dom, TRUE, out.store[k], ())

    def setlc(self, st, kk, pre, val):
        p0 = pre.store.get(kk)
        if p0 is not None and p0[0] == 'it':
            val = ('it', p0[1], val)
        elif p0 is not None and p0[0] == 'addr' and p0[1][0] == 'i':
            val = ('addr', ('i', p0[1][1], val))
        st.store[kk] = val

    def forrange(self, s, st):
        if 'init' in s:
            st = self.stmt(s['init'], st)
        rng = s['r']
        rl = self.lv(rng, st) if rng.get('lv') else self.temp(self.ev(rng, st), st)
        rv = self.read(st, rl)
        v = s['v']
        if rv[0] == 'list' and len(rv[1]) <= self.unroll:
            cur = st
            ctx = st.ctx
            outs = []
            for i in range(len(rv[1])):
                self.frame.loops.append({'kind': 'loop', 'breaks': [], 'conts': []})
                self.bindvar(v, ('i', rl, N(i)), cur)
                r = self.stmt(s['b'], cur)
                info = self.frame.loops.pop()
                outs += info['breaks']
                nxt = info['conts'] + ([r] if r is not None else [])
                cur = self.joinmany(nxt, ctx) if nxt else None
                if cur is None:
                    break
            if outs:
                return self.joinmany(outs + ([cur] if cur is not None else []), ctx)
            return cur
        rt = (rng.get('t') or {}).get('t', '')
        m = re.match(r'.*\[(\d+)\]$', rt) or re.match(r'std::array<.*,\s*(\d+)>$', rt)
        hi = N(int(m.group(1))) if m else self.size(rv)
        if rv[0] == 'list':
            self.write(st, rl, rv)
        # user-defined ranges: use the element abstraction of the range object
        ixname = ('ix', sum(1 for x in st.ctx if x[0] == 'loop'))
        brk = []

        def body(x, ix):
            self.frame.loops.append({'kind': 'loop', 'breaks': [], 'conts': []})
            self.bindvar(v, ('i', rl, ix), x)
            base = x.ctx
            r = self.stmt(s['b'], x)
            info = self.frame.loops.pop()
            brk[:] = info['breaks']
            outs = info['conts'] + ([r] if r is not None else [])
            r = self.joinmany(outs, base) if outs else None
            return r

        dom = ('rng', ZERO, hi)
        def tr(x):
            r = body(x, ixname)
            self.brkstates = list(brk)
            return r if r is not None else (brk[0] if brk else x)
        pre = st.copy()
        lcs, ind = self.analyse(st, tr, ixname)
        ctx = st.ctx
        lcs = self.refine(pre, lcs, ind, ixname, ctx + (('loop', ixname, dom),), tr, ixname)
        self.install(st, pre, lcs, ind, ixname)
        changed = [(kk, True) for kk in lcs if kk not in ind]
        st.ctx = ctx + (('loop', ixname, dom),)
        r = body(st, ixname)
        brks = list(brk)
        if r is None and not brks:
            pre.ctx = ctx
            return pre
        fin = r if r is not None else pre.copy()
        out = State({}, ctx)
        self.finish(pre, fin, out, changed, ixname, dom, ctx, True if brks else None)
        for kk in ind:
            self.setlc(out, kk, pre, self.nthval(ind[kk], hi) if not brks else ('endv', ixname, dom, ind[kk][1] if isinstance(ind[kk][1], tuple) else N(ind[kk][1]), ind[kk][2], TRUE))
        if brks:
            self.cutforall(pre, out, ixname, dom)
            g = or_(*[and_(*[y for y in b.ctx[len(ctx):] if y[0] not in ('loop', 'dead')]) for b in brks])
            for kk, _ in changed:
                if kk[0] == 'forall':
                    continue
                bvals = [b.store.get(kk) for b in brks]
                p0 = pre.store.get(kk, kk)
                fv = r.store.get(kk) if r is not None else ('lc', kk)
                if fv == ('lc', kk) and all(bv == bvals[0] for bv in bvals) and bvals[0] is not None and not mentions(bvals[0], lambda y: y[0] == 'lc'):
                    val = bvals[0]
                    if mentions(val, lambda y: y == ixname):
                        val = ('first', ((ixname, dom),), g, val)
                    out.store[kk] = ite(('pred', 'any', ixname, dom, g), val, p0)
                else:
                    out.store[kk] = ('loopx', ixname, dom, g, out.store.get(kk, ('undef',)), tuple(bv if bv is not None else ('undef',) for bv in bvals))
        out.ctx = ctx
        return out

    def bindvar(self, v, loc, st):
        if v['t'].get('ref'):
            self.frame.bind[v['id']] = loc
        else:
            l = self.new()
            self.write(st, l, self.read(st, loc))
            self.frame.bind[v['id']] = l
        if v.get('bind'):
            for b in v['bind']:
                if 'init' in b:
                    self.frame.bind[b['id']] = self.lv(b['init'], st)
                    if 'hold' in b:
                        self.frame.bind[b['hold']] = self.frame.bind[b['id']]


class Summary:
    def __init__(self, eng, fn, ret, st):
        self.fn = fn
        self.eng = eng
        self.events = eng.events
        self.state = st
        self.inlined = set(eng.inlined)
        self.unknown = list(eng.unknown)
        if ret[0] == 'L':
            self.retloc = ret[1]
            self.ret = eng.read(st, ret[1])
        else:
            self.retloc = None
            self.ret = ret[1]

    def final(self):
        """non-local locations written, with their final value"""
        return {k: v for k, v in self.state.store.items() if (k[0] == 'forall' and not is_local(k[1])) or (k[0] != 'forall' and not is_local(k))}

    def get(self, loc):
        return self.eng.read(self.state, loc)

    def dump(self):
        out = ['== %s' % self.fn['q'], 'ret: %s' % show(self.ret)]
        for k, v in self.final().items():
            out.append('  %s := %s' % (show(k), show(v)))
        for e in self.events:
            if e.kind != 'idx':
                out.append('  ' + repr(e))
        if self.unknown:
            out.append('unknown: %s' % self.unknown)
        return '\n'.join(out)
