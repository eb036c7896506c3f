"""C32, C33: no state outside the objects, copies own their state, construction leaves nothing indeterminate."""
from core import *
from spec import *
from rules.data import fields
from rules.iface import STDS, D, U
import re

VIEW = re.compile(r'\*|&|_view\b|reference_wrapper|\bspan<|iterator<|initializer_list')
SHARED = re.compile(r'\b(shared_ptr|weak_ptr)<')


def walk(n, f):
    todo = [n]
    while todo:
        n = todo.pop()
        if isinstance(n, dict):
            f(n)
            todo += n.values()
        elif isinstance(n, list):
            todo += n


def named(ctx, t):
    """records mentioned in a type"""
    out = set()
    for q in ctx.F.records:
        i = t.find(q)
        while i >= 0:
            a, b = t[i - 1:i] or ' ', t[i + len(q):i + len(q) + 1] or ' '
            if not (a.isalnum() or a in '_:') and not (b.isalnum() or b in '_:'):
                out.add(q)
                break
            i = t.find(q, i + 1)
    return out


def closure(ctx):
    """the records a device consists of"""
    seen, todo = set(), [D + s for s in STDS]
    for q in todo:
        ctx.rec(q)
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        r = ctx.F.records[q]
        for b in r['bases']:
            todo += named(ctx, b if isinstance(b, str) else b['q'])
        for f in r['fields']:
            todo += named(ctx, f['t'].get('t', ''))
    return sorted(seen)


def own(ctx, f):
    return f.startswith(ctx.repo.rstrip('/') + '/src/')


def dependent(init):
    """parts of an initializer that differ from call to call"""
    bad = []

    def look(n):
        if n.get('k') == 'this':
            bad.append('this')
        if n.get('rk') in ('param',) or (n.get('rk') == 'var'):
            bad.append(n.get('n'))
    walk(init, look)
    return bad


def statics(ctx):
    n = 0
    for q, l in sorted(ctx.F.globals.items()):
        g = l[0]
        if not own(ctx, g['file']):
            continue
        n += 1
        t = g['t']
        where = '%s:%s %s' % (g['file'], g['line'], q)
        const = g['constexpr'] or (g['isconst'] and not (t.get('ptr') and not t.get('pconst'))) or (t.get('ref') and t.get('const'))
        muts = [f['n'] for r in named(ctx, t.get('t', '')) for f in ctx.F.records[r]['fields'] if f.get('mutable')]
        ctx.ob('static ' + q + ' cannot change', bool(const) and not muts, 'mutable object with static storage duration (%s)%s is shared by all devices' % (t.get('t'), ' with mutable members ' + ', '.join(muts) if muts else ''), where)
        if g.get('init') is not None and not g['constexpr']:
            d = dependent(g['init'])
            ctx.ob('static ' + q + ' does not depend on the first user', (not d) or (False if g.get('slocal') else None), 'initialised from %s of the first call' % ', '.join(map(str, d)), where)
    return n


def lams(t, out=None):
    out = [] if out is None else out
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            if len(x) == 3 and x[0] == 'lam' and isinstance(x[1], str):
                out.append(x)
            todo += [y for y in x if isinstance(y, (tuple, list))]
    return out


def bound_to(lam):
    """what a closure refers to without owning it"""
    bad = []
    for c in lam[2]:
        if c[0] == 'this':
            bad.append('this')
        elif len(c) > 2 and c[2]:
            bad.append('a reference to ' + show(c[1])[:60])
        elif isinstance(c[1], tuple) and c[1] and c[1][0] == 'addr':
            bad.append('a pointer to ' + show(c[1])[:60])
    return bad


def stored(sm):
    """closures that outlive the function: (member they are kept in, closure)"""
    out = []
    for k in sm.final():
        r, names = k, []
        while isinstance(r, tuple) and r and r[0] in ('f', 'i', 'forall'):
            if r[0] == 'f':
                names.append(str(r[2]))
            r = r[1]
        names = list(reversed(names))
        if 'm_extensionManager' in names:
            names = names[:names.index('m_extensionManager') + 1]
        for l in lams(sm.state.store[k]):
            out.append(('.'.join(names) or show(k), l))
    return out


def independent(ctx):
    cl = closure(ctx)
    n = 0
    with ctx.guard('static storage'):
        n = statics(ctx)
    ctx.notes.append('%d objects with static storage duration, %d classes a device consists of' % (n, len(cl)))
    for q in cl:
        r = ctx.F.records[q]
        if not own(ctx, r['file']):
            continue
        short = q.replace('DRAMPower::', '')
        bad, shared = [], []
        for f in r['fields']:
            t = f['t'].get('t', '')
            plain = re.sub(r'std::function<.*', 'std::function', t)
            if f['t'].get('ptr') or f['t'].get('ref') or VIEW.search(plain):
                bad.append((f, t))
            elif SHARED.search(t):
                shared.append((f, t))
        ctx.ob('%s holds its state itself' % short, not bad, '; '.join('member %s refers to an object outside (%s)' % (f['n'], t) for f, t in bad), '%s:%s' % (r['file'], r['line']))
        for f, t in shared:
            ctx.ob('%s::%s is not shared between copies' % (short, f['n']), False, 'member of type %s: a copy refers to the same objects' % t, '%s:%s' % (r['file'], f['l']))
        for m in r['methods']:
            kind = [k for k in ('copyctor', 'movector', 'copyasg', 'moveasg') if m.get(k)]
            if not kind or m['defaulted'] or m['implicit'] or m['deleted']:
                continue
            with ctx.guard('%s %s' % (short, kind[0])):
                f = ctx.F.functions.get(m['f'])
                if f is None:
                    ctx.ob('%s %s' % (short, kind[0]), None, 'no body', '')
                    continue
                o = S('other')
                sm = ctx.run(f, [o])
                for nme, _ in fields(ctx, q):
                    if nme:
                        ctx.same('%s %s carries %s' % (short, kind[0], nme), sm.get(T(getattr(this, nme))), getattr(o, nme), loc(f))
    # closures
    for std in STDS:
        with ctx.guard(std + ' closures of the device'):
            l = [f for f in ctx.fns_of('^%s%s::%s$' % (D, std, std)) if len(f['params']) == 2]
            if not l:
                raise AnalysisBroken('constructor not found: ' + std)
            closures(ctx, std + ' device', ctx.call(l[0]), loc(l[0]))
        with ctx.guard(std + ' closures of the core'):
            n = 0
            for f in sorted(ctx.fns_of(r'^DRAMPower::%sCore::handle\w+$' % std), key=lambda f: f['q']):
                with ctx.guard(f['q']):
                    n += closures(ctx, f['q'].replace('DRAMPower::', ''), ctx.call(f), loc(f))
            ctx.ob(std + 'Core deferred work found', n >= 3 or None, '%d closures' % n, '')
    return dict(explain='every object with static storage duration in the sources, every member of the %d classes a device consists of, every user-written copy or move operation, and every closure that a constructor, an extension registration or a command handler leaves behind' % len(cl),
                assumptions=['std::function, containers and variants copy their contents', 'standard streams and the logger are not part of a result'], floor=150)


def closures(ctx, key, sm, where):
    st = stored(sm)
    seen = {}
    for place, l in st:
        f = ctx.F.functions.get(l[1])
        k = '%s: closure %s' % (key, place)
        bad = bound_to(l)
        seen[k] = seen.get(k) or bad
    for k, bad in seen.items():
        ctx.ob(k + ' owns what it uses', not bad, 'captures %s: a copy of the object still works on the original' % ', '.join(bad), where)
    if not seen:
        ctx.ob(key + ': no closure left behind', True, '', where)
    return len(st)


# ---------------------------------------------------------------- C33
def element(t):
    m = re.match(r'std::(?:vector|deque|array|optional)<(.*)>$', t)
    if not m:
        return None
    s, d = '', 0
    for ch in m.group(1):
        d += ch in '<(' and 1 or ch in '>)' and -1 or 0
        if ch == ',' and d == 0:
            break
        s += ch
    return s.strip()


def indeterminate(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x == ('undef',):
                return True
            todo += [y for y in x if isinstance(y, tuple)]
    return False


class Walk:
    def __init__(self, ctx, sm, key, where):
        self.ctx, self.sm, self.key, self.where, self.n = ctx, sm, key, where, 0

    def value(self, v, t, path, depth=0):
        e = self.sm.eng
        if depth > 8:
            return
        h = v[0]
        if h in ('zero', 'none', 'some') and h != 'some':
            return
        if h == 'some':
            return self.value(v[1], element(t) or t, path, depth + 1)
        if t in self.ctx.F.records:
            for n, ft in fields(self.ctx, t):
                if n:
                    self.value(e.project(v, ('f', n)), ft, path + '.' + n, depth + 1)
            return
        el = element(t)
        if h == 'fill':
            return self.value(v[2], el or '', path + '[]', depth + 1)
        if h == 'list':
            for i, x in enumerate(v[1]):
                self.value(x, el or '', '%s[%d]' % (path, i), depth + 1)
            return
        if h == 'ite':
            self.value(v[2], t, path, depth + 1)
            return self.value(v[3], t, path, depth + 1)
        if h == 'c' and v[1] == 'ctor:std::variant' and len(v[3]) == 1:
            x = v[3][0]
            names = [f for f in re.findall(r'DRAMPower::util::DataBus<\d+>', t)]
            if names and x[0] == 'agg':
                return self.value(x, names[0], path + '(alternative)', depth + 1)
            return
        if h == 'agg' and el in self.ctx.F.records:
            for p, x in v[2]:
                if len(p) == 1 and p[0][0] in ('i', 'forall'):
                    self.value(x, el, path + '[]', depth + 1)
            if v[1] is not None:
                self.value(v[1], t, path, depth + 1)
            return
        self.n += 1
        if t.startswith(('std::function', 'std::monostate', 'std::unordered_map', 'std::map', 'std::deque', 'std::string', 'std::basic_string')):
            return
        bad = v == ('undef',) or (h in ('ite', 'op', 'agg') and indeterminate(v) and h != 'agg')
        r = False if bad and v == ('undef',) else None if bad else True
        self.ctx.ob('%s %s' % (self.key, path), r, 'holds an indeterminate value after construction: ' + show(v)[:200], self.where)


def determinate(ctx):
    n = 0
    for std in STDS:
        for q, pick in ((D + 'MemSpec' + std, 1), (D + std + 'Core', 1), (D + std + 'Interface', 2), (D + std, 2)):
            for f in ctx.fns_of('^%s::%s$' % (q, q.split('::')[-1])):
                if f.get('deleted') or len(f['params']) < pick or ((f['params'][0].get('t') or {}).get('t') == q):
                    continue
                key = '%s(%s)' % (q.replace('DRAMPower::', ''), len(f['params']))
                with ctx.guard(key):
                    sm = ctx.call(f)
                    w = Walk(ctx, sm, key, loc(f))
                    for name, t in fields(ctx, q):
                        w.value(sm.get(T(getattr(this, name))), t, name)
                    n += w.n
    return dict(explain='every scalar part of every memory specification, core, interface and device (elements of containers and the active alternative of variants included) has a value after construction: %d parts' % n,
                assumptions=['containers sized by the specification contain value-initialised or copied elements as the standard requires'], floor=600)
