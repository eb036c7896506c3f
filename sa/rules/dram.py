"""DRAM cores: effects of every command on the bank and rank state, deferred actions, window statistics."""
from core import *
from spec import *
from engine import State
from .command import enumerators, cmd, lamfn, D

STD = ['DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6']
ADD = 'DRAMPower::ImplicitCommandHandler::addImplicitCommand'
PROC = 'DRAMPower::ImplicitCommandHandler::processImplicitCommandQueue'
BK = D + 'Bank::BankState::BANK_'
PRECHARGED, ACTIVE = X(('enum', BK + 'PRECHARGED', 0)), X(('enum', BK + 'ACTIVE', 1))
MEM = {n: X(('enum', D + 'MemState::' + n, i)) for i, n in enumerate(['NOT_IN_PD', 'PDN_ACT', 'PDN_PRE', 'SREF', 'DSM'])}
NONE = X(('none',))
IX = ('ix', 'L')
JX = ('ix', 'J')


def some(x):
    return X(('some', T(x)))


def max_(*xs):
    r = X(xs[0])
    for x in xs[1:]:
        r = If(r < x, x, r)
    return r


class Model:
    """the required effect of a command, written as assignments to a symbolic DRAM state"""

    def __init__(self, root, r):
        self.root, self.r = X(root), X(r)
        self.R = self.root.m_ranks[self.r]
        self.nb = X(('size', T(self.R.banks)))
        self.mem = self.root.m_memSpec
        self.flat = {}
        self.elem = None
        self.deferred = []
        self.touched = []       # bank indices whose state was assigned

    def bank(self, b):
        return self.R.banks[b]

    def get(self, l):
        return X(self.flat.get(T(l), T(l)))

    def set(self, l, v, g=TRUE):
        l = T(l)
        self.flat[l] = ite(truth(T(g)), T(v), self.flat.get(l, l))

    def inc(self, l, g=TRUE):
        self.set(l, self.get(l) + 1, g)

    def state(self, b, v, g=TRUE):
        self.set(self.bank(b).bankState, v, g)
        if T(b) not in self.touched:
            self.touched.append(T(b))

    def running(self, iv):
        return has(self.get(iv.start)) & ~has(self.get(iv.end))

    def start(self, iv, t, g=TRUE):
        self.set(iv.start, some(t), g)
        self.set(iv.end, NONE, g)

    def start_if_not_running(self, iv, t, g=TRUE):
        g2 = X(g) & ~self.running(iv)
        self.start(iv, t, g2)

    def close(self, iv, t, g=TRUE):
        g2 = X(g) & self.running(iv)
        v = self.get(iv.start)
        v = X(rewrite_some(T(v)))
        self.set(iv.count, self.get(iv.count) + X(t) - v, g2)
        self.set(iv.end, some(t), g2)

    def get_start(self, iv):
        s = self.get(iv.start)
        return If(has(s), X(rewrite_some(T(s))), 0)

    def get_end(self, iv):
        s = self.get(iv.end)
        return If(has(s), X(rewrite_some(T(s))), 0)

    def active(self, t):
        j = X(JX)
        st = self.bank(j).bankState
        for b in self.touched:
            st = If(j == X(b), self.get(self.bank(X(b)).bankState), st)
        n = X(('sum', JX, ('rng', ZERO, T(self.nb)), T(If(st == ACTIVE, 1, 0))))
        return (n != 0) | (X(t) < self.get(self.R.endRefreshTime))

    def defer(self, t, f):
        self.deferred.append((T(t), f))

    def earliest(self, std):
        b = self.bank(X(IX))
        rcd = max_(self.mem.tRCDR, self.mem.tRCDW) if std == 'LPDDR6' else self.mem.tRCD
        terms = [If(b.counter.act == 0, 0, self.get_start(b.cycles.act) + rcd), If(b.counter.pre == 0, 0, b.latestPre + self.mem.tRP), b.refreshEndTime]
        return terms


def rewrite_some(s):
    """value of an optional"""
    if s[0] == 'some':
        return s[1]
    if s[0] == 'ite':
        return ite(s[1], rewrite_some(s[2]), rewrite_some(s[3]))
    return ('f', s, '$val')


# ------------------------------------------------------------------------------------------------ requirements
def op_pre(m, b, t):
    B = m.bank(b)
    g = m.get(B.bankState) != PRECHARGED
    m.inc(B.counter.pre, g)
    m.close(B.cycles.act, t, g)
    m.set(B.latestPre, t, g)
    m.state(b, PRECHARGED, g)
    m.close(m.R.cycles.act, t, X(g) & ~m.active(t))


def op_act(m, b, t, std):
    B = m.bank(b)
    m.inc(B.counter.act)
    m.start(B.cycles.act, t)
    if std == 'DDR4':
        m.start_if_not_running(m.R.cycles.act, t)
    else:
        m.start(m.R.cycles.act, t, ~m.active(t))
    m.state(b, ACTIVE)


def refresh_end(b, t):
    def f(m):
        B = m.bank(b)
        m.state(b, PRECHARGED)
        m.close(B.cycles.act, t)
        m.close(m.R.cycles.act, t, ~m.active(t))
    return f


def op_refresh(m, b, t, tim, counter, std):
    B = m.bank(b)
    m.inc(getattr(B.counter, counter))
    if std == 'DDR4':
        m.start_if_not_running(m.R.cycles.act, t)
    else:
        m.start(m.R.cycles.act, t, ~m.active(t))
    m.state(b, ACTIVE)
    m.set(B.refreshEndTime, X(t) + tim)
    m.start_if_not_running(B.cycles.act, t)
    m.defer(X(t) + tim, refresh_end(b, X(t) + tim))


def tRFC(m, std):
    return m.mem.tRFCAB if std == 'LPDDR6' else m.mem.tRFC


def auto_pre(m, b, t, off, counter):
    B = m.bank(b)
    m.inc(getattr(B.counter, counter))
    when = max_(m.get_start(B.cycles.act) + m.mem.tRAS, X(t) + off)
    m.defer(when, lambda m2: op_pre(m2, b, when))


def sref_entry(t):
    def f(m):
        m.inc(m.R.counter.selfRefresh)
        m.start(m.R.cycles.sref, t)
        m.set(m.R.memState, MEM['SREF'])
    return f


ORDER = ('flat', 'loops', 'deferred')


class Req:
    """requirement for one command: straight-line part, per-bank loop parts, deferred actions"""

    def __init__(self):
        self.flat = {}
        self.loops = []      # (domain, elem {loc: val}, carried {loc: val})
        self.deferred = []   # (loop domain or None, time (term or list for max over banks), requirement builder)


def requirement(std, name, root=this, c=A0):
    """None: the standard does not define the command"""
    r, b, t = c.targetCoordinate.rank, c.targetCoordinate.bank, c.timestamp
    q = Req()

    def straight(f):
        m = Model(root, r)
        f(m)
        q.flat.update(m.flat)
        q.deferred += [(None, w, g) for w, g in m.deferred]

    def loop(dom, idx, f):
        m = Model(root, r)
        f(m, idx)
        el = {k: v for k, v in m.flat.items() if mentions(k, lambda x: x == IX)}
        ca = {k: v for k, v in m.flat.items() if k not in el}
        q.loops.append((dom, el, ca))
        q.deferred += [(dom, w, g) for w, g in m.deferred]

    m0 = Model(root, r)
    banks = ('rng', ZERO, T(m0.nb))
    if name == 'ACT':
        straight(lambda m: op_act(m, b, t, std))
    elif name == 'PRE':
        straight(lambda m: op_pre(m, b, t))
    elif name == 'PREA':
        loop(banks, X(IX), lambda m, i: op_pre(m, i, t))
    elif name == 'RD':
        straight(lambda m: m.inc(m.bank(b).counter.reads))
    elif name == 'WR':
        straight(lambda m: m.inc(m.bank(b).counter.writes))
    elif name == 'RDA':
        straight(lambda m: auto_pre(m, b, t, m.mem.prechargeOffsetRD, 'readAuto'))
    elif name == 'WRA':
        straight(lambda m: auto_pre(m, b, t, m.mem.prechargeOffsetWR, 'writeAuto'))
    elif name in ('REFA', 'SREFEN'):
        if std == 'DDR4':
            straight(lambda m: m.start_if_not_running(m.R.cycles.act, t))

            def f(m, i):
                B = m.bank(i)
                m.inc(B.counter.refAllBank)
                m.state(i, ACTIVE)
                m.set(B.refreshEndTime, t + tRFC(m, std))
                m.start_if_not_running(B.cycles.act, t)
                m.defer(t + tRFC(m, std), refresh_end(i, t + tRFC(m, std)))
            loop(banks, X(IX), f)
        else:
            loop(banks, X(IX), lambda m, i: op_refresh(m, i, t, tRFC(m, std), 'refAllBank', std))
        straight(lambda m: m.set(m.R.endRefreshTime, t + tRFC(m, std)))
        if name == 'SREFEN':
            straight(lambda m: m.defer(t + tRFC(m, std), sref_entry(t + tRFC(m, std))))
    elif name == 'SREFEX':
        straight(lambda m: (m.close(m.R.cycles.sref, t), m.set(m.R.memState, MEM['NOT_IN_PD'])))
    elif name in ('PDEA', 'PDEP', 'PDXA', 'PDXP'):
        when = ('max', T(t), tuple(T(x) for x in m0.earliest(std)), T(m0.nb))
        q.deferred.append((None, when, (name, std)))
    elif name == 'PRESB' and std == 'DDR5':
        idx = X(IX) * m0.mem.banksPerGroup + b % m0.mem.banksPerGroup
        loop(('rng', ZERO, T(m0.mem.numberOfBankGroups)), idx, lambda m, i: op_pre(m, i, t))
    elif name == 'REFSB' and std == 'DDR5':
        idx = X(IX) * m0.mem.banksPerGroup + b % m0.mem.banksPerGroup
        loop(('rng', ZERO, T(m0.mem.numberOfBankGroups)), idx, lambda m, i: op_refresh(m, i, t, m.mem.tRFCsb, 'refSameBank', std))
    elif name == 'REFB' and std in ('LPDDR4', 'LPDDR5'):
        straight(lambda m: op_refresh(m, b, t, m.mem.tRFCPB, 'refPerBank', std))
    elif name == 'REFP2B' and std == 'LPDDR5':
        def f(m):
            op_refresh(m, b, t, m.mem.tRFCPB, 'refPerTwoBanks', std)
            op_refresh(m, (b + m.mem.perTwoBankOffset) % 16, t, m.mem.tRFCPB, 'refPerTwoBanks', std)
        straight(f)
    elif name == 'REFDB' and std == 'LPDDR6':
        def f(m):
            op_refresh(m, b, t, m.mem.tRFCDB, 'refDualBanks', std)
            op_refresh(m, c.targetCoordinate.dbank, t, m.mem.tRFCDB, 'refDualBanks', std)
        straight(f)
    elif name == 'DSMEN' and std == 'LPDDR5':
        straight(lambda m: (m.start(m.R.cycles.deepSleepMode, t), m.inc(m.R.counter.deepSleepMode), m.set(m.R.memState, MEM['DSM'])))
    elif name == 'DSMEX' and std == 'LPDDR5':
        straight(lambda m: (m.close(m.R.cycles.deepSleepMode, t), m.set(m.R.memState, MEM['SREF'])))
    elif name == 'END_OF_SIMULATION' or (name == 'NOP' and std == 'DDR5'):
        pass
    else:
        return None
    return q


def power_requirement(name, std, root, r, t):
    q = Req()
    m0 = Model(root, r)
    banks = ('rng', ZERO, T(m0.nb))

    def straight(f):
        m = Model(root, r)
        f(m)
        q.flat.update(m.flat)

    def loop(f):
        m = Model(root, r)
        f(m, X(IX))
        q.loops.append((banks, dict(m.flat), {}))
    pd = {'PDEA': 'powerDownAct', 'PDXA': 'powerDownAct', 'PDEP': 'powerDownPre', 'PDXP': 'powerDownPre'}[name]
    iv = getattr(m0.R.cycles, pd)
    if name in ('PDEA', 'PDEP'):
        straight(lambda m: (m.start(iv, t), m.set(m.R.memState, MEM['PDN_ACT' if name == 'PDEA' else 'PDN_PRE'])))
        if name == 'PDEA' or std == 'DDR4':
            straight(lambda m: m.close(m.R.cycles.act, t))
            loop(lambda m, i: m.close(m.bank(i).cycles.act, t))
    else:
        straight(lambda m: (m.close(iv, t), m.set(m.R.memState, MEM['NOT_IN_PD'])))
        if std == 'DDR4':
            loop(lambda m, i: m.start(m.bank(i).cycles.act, t, m.get(m.bank(i).bankState) == ACTIVE))
            if name == 'PDXA':
                straight(lambda m: m.start(m.R.cycles.act, t, m.active(t)))
        elif name == 'PDXA':
            g = m0.bank(X(IX)).bankState == ACTIVE
            loop(lambda m, i: m.start(m.bank(i).cycles.act, t, g))
            if std == 'LPDDR6':
                straight(lambda m: m.start(m.R.cycles.act, t))
            else:
                any_ = X(('pred', 'any', IX, banks, T(g)))
                straight(lambda m: m.start(m.R.cycles.act, t, any_))
    return q


# ------------------------------------------------------------------------------------------------ views of the code
NOISE = ('g',)


def opq(t):
    return mentions(t, lambda x: x[0] in ri.OPAQUE or x[0] == 'while')


def clean(t):
    """32-bit truncation of a bank count, loop entry values of elements"""
    return rewrite(t, lambda x: x[2] if x[0] == 'trunc' and x[1] in (32, 64) else (x[1] if x[0] == 'lc' else None))


def elem_value(v, ix):
    if v[0] == 'loopv' and len(v) == 4:
        b = subst(v[3], {v[1]: ix}) if v[1] != ix else v[3]
        return b
    return v


class View:
    def __init__(self, sm, skip=()):
        self.sm = sm
        self.flat, self.elems, self.iters = {}, [], {}
        for k, v in sm.final().items():
            if k[0] == 'forall':
                if noise(k[1]) or any(prefix(s, k[1]) for s in skip):
                    continue
                self.elems.append((k[1], k[2], k[3], clean(elem_value(v, k[2]))))
            else:
                if noise(k) or any(prefix(s, k) for s in skip):
                    continue
                self.flat[k] = clean(v)
        for e in sm.events:
            lo = [c for c in e.ctx if c[0] == 'loop']
            if e.kind != 'write' or len(lo) != 1 or noise(e.d['loc']):
                continue
            l = lo[0]
            g = and_(*[c for c in e.ctx if c[0] != 'loop' and c[0] != 'dead'])
            if mentions(e.d['loc'], lambda x: x == l[1]):
                continue
            d = self.iters.setdefault((l[1], l[2]), {})
            k = e.d['loc']
            old = d.get(k, k)
            d[k] = ite(clean(g), subst_loc(clean(e.d['val']), k, k), old)
        self.calls = [e for e in sm.events if e.kind == 'call' and e.d['q'] in (ADD, PROC)]


def subst_loc(v, a, b):
    return v


def noise(k):
    return mentions(k, lambda x: x[0] in ('g', 'lc', 'lcv', 'lit', 'rd') or (x[0] == 'v'))


def rootof(k):
    while k[0] in ('f', 'i'):
        k = k[1]
    return k


def compare(ctx, key, vw, req, where, assume=()):
    """effects found in the code against the required ones"""
    seen = set()
    eseen = set()
    carried = set()
    for dom, el, ca in req.loops:
        for l, w in el.items():
            hit = None
            for i, (k, ix, kd, v) in enumerate(vw.elems):
                k2, v2 = subst(k, {ix: IX}), subst(v, {ix: IX})
                if shape_eq(k2, l) and (k2 == l or ri.equal(index_of(k2), index_of(l), assume, 1) is True):
                    hit = (i, k2, v2, kd)
                    break
            name = '%s %s' % (key, show(l).replace("ix('L')", 'i'))
            if hit is None:
                # perhaps a per-element effect in another form
                other = [k for k, ix, kd, v in vw.elems if last_field(k) == last_field(l)] + [k for k in vw.flat if last_field(k) == last_field(l)]
                if w == l:
                    continue
                ctx.ob(name, None if other or vw.sm.unknown else False, 'no assignment for every bank found (required %s)' % show(w)[:300], where)
                continue
            eseen.add(hit[0])
            ctx.same(name + ' banks', hit[3], dom, where, assume, 'range of banks')
            ctx.same(name, rename(hit[2], hit[1], l), w, where, assume, 'value for every bank')
        for l, w in ca.items():
            carried.add(l)
            name = '%s %s (per bank)' % (key, show(l))
            got = None
            for (ix, kd), d in vw.iters.items():
                if l in d:
                    got = subst(d[l], {ix: IX})
            if got is None:
                ctx.ob(name, False if l not in vw.flat or vw.flat[l] == l else None, 'not updated while visiting the banks (required %s)' % show(w)[:300], where)
            else:
                ctx.same(name, got, w, where, assume, 'value after visiting a bank')
    for l, w in req.flat.items():
        if l in carried:
            continue
        got = vw.flat.get(l, None)
        if got is None:
            got = clean(vw.sm.get(l))
        ctx.same('%s %s' % (key, show(l)), got, w, where, assume, 'final value')
    for k, v in vw.flat.items():
        if k not in req.flat and k not in carried:
            if any(prefix(k, x) or prefix(x, k) for x in req.flat):
                ctx.ob('%s %s' % (key, show(k)), None, 'assigned as a whole', where)
                continue
            r = ri.equal(v, k, list(assume), ctx.seed)
            if r is not True:
                ctx.ob('%s leaves %s alone' % (key, show(k)), r, 'is changed to ' + show(v)[:300], where)
    for i, (k, ix, kd, v) in enumerate(vw.elems):
        if i not in eseen:
            r = ri.equal(v, k, list(assume), ctx.seed)
            if r is not True:
                ctx.ob('%s leaves %s alone' % (key, show(k)), r, 'is changed to ' + show(v)[:300], where)


def rename(t, a, b):
    return t if a == b else rewrite(t, lambda x: b if x == a else None)


def last_field(k):
    return k[2] if k[0] == 'f' else None


def shape_eq(a, b):
    """same member path, possibly different index expressions"""
    while True:
        if a == b:
            return True
        if a[0] != b[0]:
            return False
        if a[0] == 'f':
            if a[2] != b[2]:
                return False
        elif a[0] != 'i':
            return False
        a, b = a[1], b[1]


def index_of(k):
    while k[0] in ('f', 'i'):
        if k[0] == 'i':
            return k[2]
        k = k[1]
    return ZERO


def bound_run(ctx, fn, pre=None, args=None):
    args = args or [('s', 'a%d' % i) for i in range(len(fn['params']))]
    return ctx.run(fn, args, bound=frozenset({ADD, PROC}), pre=pre)


def run_lambda(ctx, lam, args, bound=frozenset({ADD, PROC})):
    """summary of a closure body with its captured values"""
    f = lamfn(ctx, lam)
    if f is None:
        return None
    key = ('lam', lam, tuple(args), bound)
    if key not in ctx.cache:
        e = Engine(ctx.F, bound=bound)
        e.reset()
        st = State()
        pre, th = {}, ('s', 'this')
        for cid, v, byref in lam[2]:
            if cid == 'this':
                th = v
                continue
            if byref:
                pre[cid] = v
            else:
                l = e.new()
                e.write(st, l, v)
                pre[cid] = l
        rets, st2 = e.invoke(f, th, [('L', T(a)) for a in args], st, None, pre)
        ctx.cache[key] = Summary(e, f, rets, st2)
        ctx.fns.add(f['q'])
    return ctx.cache[key]


def maxterm(t):
    """max(x, max over the banks of terms) in a normal form: (set of plain terms, set of (per-bank terms)), or None"""
    plain, per = [], []

    def flat(x):
        # ite(a < b, b, a) or ite(b<a, a, b)
        if x[0] == 'ite' and x[1][0] == 'lt':
            a, b = x[1][1], x[1][2]
            if (x[2], x[3]) == (b, a):
                flat(a)
                flat(b)
                return
        if x[0] == 'c' and x[1] == 'std::max':
            for a in x[3]:
                if a[0] == 'list':
                    for y in a[1]:
                        flat(y)
                else:
                    flat(a)
            return
        if x[0] == 'loopv' and len(x) == 5:
            sub_ = []
            ok = loopmax(x[3], sub_)
            if ok:
                flat(x[4])
                for y in sub_:
                    per.append((x[2], subst(y, {x[1]: IX})))
                return
            if x[1][0] == 'ix' and not mentions(x[3], lambda z: z[0] == 'lcv' and z != ('lcv', 0)):
                # any other step function of the running maximum: compared as a function of it
                flat(x[4])
                per.append((x[2], ('fold', subst(x[3], {x[1]: IX, ('lcv', 0): ACC}))))
                return
        if x[0] == 'recur' and len(x[3]) == 1:
            # the same step function, written as a scalar recurrence
            flat(x[4][0])
            per.append((x[2], ('fold', subst(x[3][0], {x[1]: IX, ('rv', x[1], 0): ACC}))))
            return
        plain.append(x)

    def loopmax(s, out):
        if s[0] == 'lcv':
            return True
        if s[0] == 'c' and s[1] == 'std::max':
            n = 0
            for a in s[3]:
                for y in (a[1] if a[0] == 'list' else (a,)):
                    if y[0] == 'lcv':
                        n += 1
                    elif mentions(y, lambda z: z[0] == 'lcv'):
                        r = loopmax(y, out)
                        if not r:
                            return False
                        n += 1
                    else:
                        out.append(y)
            return n >= 1
        if s[0] == 'ite' and s[1][0] == 'lt':
            a, b = s[1][1], s[1][2]
            if (s[2], s[3]) == (b, a):
                for y in (a, b):
                    if mentions(y, lambda z: z[0] == 'lcv'):
                        if not loopmax(y, out):
                            return False
                    else:
                        out.append(y)
                return True
        return False
    flat(t)
    return plain, per


ACC = ('s', 'running maximum')


def maxof(a, b):
    return ite(lt(a, T(b), True), T(b), a)


def maxlist(x):
    if x[0] == 'c' and x[1] == 'std::max' and x[3]:
        ys = [rewrite(y, maxlist) for a in x[3] for y in (a[1] if a[0] == 'list' else (a,))]
        r = ys[0]
        for y in ys[1:]:
            r = maxof(r, y)
        return r
    return None


def same_time(ctx, key, got, want, where):
    if want[0] != 'max':
        return ctx.same(key, clean(got), want, where, what='time of the deferred action')
    _, t, terms, nb = want
    plain, per = maxterm(got)
    zero = [p for p in plain if p == ZERO]
    plain = [p for p in plain if p != ZERO]
    if any(opq(p) or mentions(p, lambda x: x[0] == 'recur') for p in plain):
        return ctx.ob(key, None, show(got)[:400], where)
    ctx.ob(key + ' not before the command', any(ri.equal(p, t, [], 1) is True for p in plain), 'time of the command does not bound ' + show(got)[:600], where)
    for p in plain:
        ctx.ob(key + ' no other bound', ri.equal(p, t, [], 1), 'additional bound ' + show(p)[:300], where)
    for dom, (_, step) in [x for x in per if x[1][0] == 'fold']:
        want = ACC
        for w in terms:
            want = maxof(want, w)
        if len([x for x in per if x[1][0] == 'fold']) > 1 or len(per) > 1:
            return ctx.ob(key, None, 'bounds taken in several ways: ' + show(got)[:300], where)
        ctx.same(key + ' bank bounds', rewrite(clean(step), maxlist), want, where, what='step of the running maximum')
        ctx.same(key + ' all banks', dom, ('rng', ZERO, nb), where, what='banks considered')
        return
    left = list(per)
    for w in terms:
        hit = [x for x in left if ri.equal(clean(x[1]), w, [], ctx.seed) is True]
        ctx.ob(key + ' bank bound ' + show(w)[:160], bool(hit), 'the earliest time does not take this bound over all banks; bounds found: %s' % [show(x[1])[:200] for x in left], where)
        for h in hit:
            left.remove(h)
            ctx.same(key + ' all banks', h[0], ('rng', ZERO, nb), where, what='banks considered')
    for x in left:
        ctx.ob(key + ' extra bound ' + show(x[1])[:100], ri.equal(clean(x[1]), ZERO, [], 1), 'additional bound', where)


SELF = S('self')
WHEN = ('s', 'when')


def deferred(ctx, key, vw, req, std, r, where, assume):
    adds = [e for e in vw.calls if e.d['q'] == ADD]
    want = list(req.deferred)
    ctx.ob(key + ': number of deferred actions', len(adds) == len(want) if not vw.sm.unknown or len(adds) >= len(want) else None, '%d scheduled, %d required' % (len(adds), len(want)), where)
    for e in adds:
        if not want:
            break
        lo = [c for c in e.ctx if c[0] == 'loop']
        cond = and_(*[c for c in e.ctx if c[0] != 'loop'])
        ren = {lo[0][1]: IX} if lo else {}
        lam = subst(e.d['args'][1], ren)
        tm = subst(e.d['args'][0], ren)
        # pair with the first requirement of the same kind
        cands = [w for w in want if (w[0] is None) == (not lo)]
        w = cands[0] if cands else want[0]
        want.remove(w)
        wh = e.where() if callable(getattr(e, 'where', None)) else where
        k2 = key + ' deferred'
        if w[0] is not None:
            if lo:
                ctx.same(k2 + ' for all banks', lo[0][2], w[0], wh, assume, 'range of banks')
            else:
                ctx.ob(k2 + ' for all banks', None, 'scheduled once, required for each bank', wh)
                continue
        elif lo:
            ctx.ob(k2 + ' once', False, 'scheduled once per iteration of a loop', wh)
            continue
        ctx.same(k2 + ' always', clean(cond), TRUE, wh, assume, 'condition under which the action is scheduled')
        same_time(ctx, k2 + ' time', clean(tm), w[1], wh)
        if lam[0] != 'lam' or lamfn(ctx, lam) is None:
            ctx.ob(k2 + ' action', None, 'action is ' + show(lam)[:200], wh)
            continue
        for cid, v, byref in lam[2]:
            if cid != 'this' and byref:
                ctx.ob(k2 + ' captures by value', False if rootof(v)[0] in ('v', 's') and rootof(v) != T(this) else None, 'the action runs later and must not refer to variables of the scheduling function: captures %s by reference' % show(v), wh)
        if not callable(w[2]):
            # the scheduled time (compared above) is only named here
            ctm = clean(tm)
            lam = rewrite(lam, lambda x: WHEN if x == tm or x == ctm else None)
        lv = View(run_lambda(ctx, lam, [SELF]))
        if callable(w[2]):
            m = Model(SELF, r)
            w[2](m)
            q = Req()
            q.flat = m.flat
        else:
            # the scheduled time is the time of the transition
            q = power_requirement(w[2][0], w[2][1], SELF, r, X(WHEN))
        compare(ctx, k2, lv, q, wh, assume)


def core_command(ctx, names):
    vals = dict(enumerators(ctx, D + 'CmdType'))
    for std in STD:
        fn = ctx.fn(D + std + 'Core::doCommand')
        for n in names:
            req = requirement(std, n)
            if req is None:
                continue
            with ctx.guard('%s %s' % (std, n)):
                one_command(ctx, vals, std, fn, n, req)


def one_command(ctx, vals, std, fn, n, req):
    key = '%s %s' % (std, n)
    sm = bound_run(ctx, fn, {('f', ('s', 'a0'), 'type'): ('enum', D + 'CmdType::' + n, vals[n])})
    vw = View(sm, skip=[('s', 'a0'), T(this.m_last_command_time), T(this.m_implicitCommandHandler)])
    where = loc(fn)
    b = A0.targetCoordinate.bank
    as_ = [T(b < X(('size', T(this.m_ranks[A0.targetCoordinate.rank].banks)))), T(A0.targetCoordinate.rank < X(('size', T(this.m_ranks))))]
    if n == 'REFP2B':
        as_ += [T(b != (b + this.m_memSpec.perTwoBankOffset) % 16)]
    if n == 'REFDB':
        as_ += [T(b != A0.targetCoordinate.dbank), T(A0.targetCoordinate.dbank < X(('size', T(this.m_ranks[A0.targetCoordinate.rank].banks))))]
    if n == 'REFP2B':
        mode = dict(enumerators(ctx, D + 'MemSpecLPDDR5::BankArchitectureMode'))
        arch = this.m_memSpec.bank_arch
        E = lambda k: X(('enum', D + 'MemSpecLPDDR5::' + k, mode[k]))
        good = (arch == E('MBG')) | (arch == E('M16B'))
        ctx.throws(key + ' rejected for other bank architectures', sm, ~good, where, as_)
        as_ += [T(good)]
    else:
        ctx.throws(key + ' accepted', sm, FALSE, where, as_)
    compare(ctx, key, vw, req, where, as_)
    deferred(ctx, key, vw, req, std, A0.targetCoordinate.rank, where, as_)


BIG = ['fewer than 2^32 banks, ranks and devices', 'rank and bank of the command exist', 'time stamps do not decrease and counters do not overflow 64 bits']


def basic_commands(ctx):
    core_command(ctx, ['ACT', 'PRE', 'PREA', 'PRESB', 'RD', 'WR', 'RDA', 'WRA', 'NOP', 'END_OF_SIMULATION'])
    return dict(explain='For each of the five standards, doCommand is summarised with the command type fixed; the final value of every bank and rank location, the values carried through the loop over the banks, and the scheduled deferred actions (time, condition, captured values and the summary of the closure body) are compared with the required state transition of ACT, PRE, PREA, PRESB, RD, WR, RDA, WRA, NOP and END_OF_SIMULATION; every other location must keep its value.', assumptions=BIG, floor=165)


def refresh_commands(ctx):
    core_command(ctx, ['REFA', 'REFB', 'REFP2B', 'REFSB', 'REFDB'])
    return dict(explain='As for the basic commands, for all bank, per bank, per two banks, same bank and dual bank refresh: which banks are refreshed, which counter counts it, when the refresh ends and what happens then.', assumptions=BIG + ['the two banks of a two bank refresh differ'], floor=110)


def power_states(ctx):
    core_command(ctx, ['SREFEN', 'SREFEX', 'DSMEN', 'DSMEX', 'PDEA', 'PDEP', 'PDXA', 'PDXP'])
    return dict(explain='As for the basic commands, for power down, self refresh and deep sleep entry and exit. The time of a deferred power down transition is compared, in a maximum normal form over the banks, with max(command time, bank ready times).', assumptions=BIG, floor=260)


# ------------------------------------------------------------------------------------------------ time window statistics
def count_at(iv, t):
    iv = X(iv)
    run = has(iv.start) & ~has(iv.end) & (val(iv.start) < X(t))
    return iv.count + If(run, X(t) - val(iv.start), 0)


def window_requirement(std, R, B, t):
    c = X(R).cycles
    at = lambda iv: count_at(iv, t)
    act, pda, pdp, sref = at(X(B).cycles.act), at(c.powerDownAct), at(c.powerDownPre), at(c.sref)
    dsm = at(c.deepSleepMode)
    bank = {'cycles.act': act, 'cycles.powerDownAct': pda, 'cycles.powerDownPre': pdp, 'cycles.pre': X(t) - (act + pda + pdp + sref),
            'cycles.selfRefresh': sref - dsm if std.startswith('LP') else sref}
    ract = at(c.act)
    rank = {'cycles.act': ract, 'cycles.powerDownAct': pda, 'cycles.powerDownPre': pdp, 'cycles.pre': X(t) - (ract + pda + pdp + sref),
            'cycles.selfRefresh': sref - dsm if std in ('LPDDR5', 'LPDDR6') else sref}
    if std.startswith('LP'):
        bank['cycles.deepSleepMode'] = dsm
    if std in ('DDR5', 'LPDDR5', 'LPDDR6'):
        rank['cycles.deepSleepMode'] = dsm
    for n in ('act', 'pre', 'reads', 'writes', 'refAllBank', 'refPerBank', 'refPerTwoBanks', 'refDualBanks', 'refSameBank', 'readAuto', 'writeAuto'):
        bank['counter.' + n] = getattr(X(B).counter, n)
    if std == 'DDR4':
        # the interface energy counts the accesses of a rank
        ix = ('ix', 9)
        for n in ('reads', 'writes', 'readAuto', 'writeAuto'):
            rank['counter.' + n] = X(('sum', ix, ('rng', ZERO, T(this.m_memSpec.numberOfBanks)), T(getattr(X(R).banks[X(ix)].counter, n))))
    return bank, rank


def path(x, p):
    for n in p.split('.'):
        x = getattr(X(x), n)
    return T(x)


def relp(k, base):
    """member path below an element of base: (index, path) or None"""
    names = []
    while k[0] in ('f', 'i'):
        if k[0] == 'i':
            return (k[2], '.'.join(reversed(names))) if k[1] == base else None
        names.append(k[2])
        k = k[1]
    return None


def loopdoms(sm):
    d = {}
    for e in sm.events:
        for c in e.ctx:
            if c[0] == 'loop':
                d[c[1]] = clean(c[2])
    return d


def strip_size(t):
    """m_ranks.size() / banks.size() are the configured numbers"""
    def f(x):
        if x[0] == 'size' and x[1] == T(this.m_ranks):
            return T(this.m_memSpec.numberOfRanks)
        if x[0] == 'size' and x[1][0] == 'f' and x[1][2] == 'banks':
            return T(this.m_memSpec.numberOfBanks)
    return rewrite(t, f)


def window_stats(ctx):
    for std in STD:
        with ctx.guard(std + ' window statistics'):
            window_one(ctx, std)
        with ctx.guard(std + ' drain'):
            drain_one(ctx, std)
    return dict(explain='getWindowStats of each standard is summarised; for a generic bank b of rank r, the entry r*banks+b of the bank list and entry r of the rank list must get, per field, the required count at the query time (act, power down, self refresh, deep sleep, precharged as the rest, command counters). Deferred actions due are executed before anything else, in getWindowStats and for every command, and the time of the last command is the maximum of the times seen.',
                assumptions=BIG + ['the core has numberOfRanks ranks of numberOfBanks banks (constructor)'], floor=150)


def window_one(ctx, std):
    fn = ctx.fn(D + std + 'Core::getWindowStats')
    sm = bound_run(ctx, fn, args=[('s', 'ts'), ('s', 'stats')])
    where = loc(fn)
    nr, nb = this.m_memSpec.numberOfRanks, this.m_memSpec.numberOfBanks
    stats = S('stats')
    drained(ctx, std + ' getWindowStats', sm, ('s', 'ts'), where)
    Rr, Bb = ('s', 'r'), ('s', 'b')
    rank = this.m_ranks[X(Rr)]
    bank = rank.banks[X(Bb)]
    as_ = [T(X(Rr) < nr), T(X(Bb) < nb)]
    wb, wr = window_requirement(std, rank, bank, ('s', 'ts'))
    doms = {k: strip_size(v) for k, v in loopdoms(sm).items()}
    ren = {}
    for ix, d in doms.items():
        if d == ('rng', ZERO, T(nr)):
            ren[ix] = Rr
        elif d == ('rng', ZERO, T(nb)):
            ren[ix] = Bb
    if std in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6'):
        for f, n in (('bank', nr * nb), ('rank_total', nr)):
            v = sm.get(T(getattr(stats, f)))
            if v[0] == 'm' and v[1] == 'resize' and v[2] == T(getattr(stats, f)):
                ctx.same('%s stats.%s size' % (std, f), strip_size(v[3][0]), n, where, as_, 'number of entries')
    got = {}
    for k, v in sm.final().items():
        if k[0] != 'forall' or not (prefix(T(stats.bank), k[1]) or prefix(T(stats.rank_total), k[1])):
            continue
        for f in ('bank', 'rank_total'):
            rp = relp(subst(k[1], ren), T(getattr(stats, f)))
            if rp:
                val_ = strip_size(subst(clean(elem_value(v, k[2])), ren))
                if f == 'bank':
                    good = ri.equal(strip_size(rp[0]), nr * 0 + X(Rr) * nb + X(Bb), as_, ctx.seed)
                else:
                    good = ri.equal(strip_size(rp[0]), X(Rr), as_, ctx.seed)
                got.setdefault((f, rp[1]), []).append((good, rp[0], val_, k))
    for f, want in (('bank', wb), ('rank_total', wr)):
        for p_, w in want.items():
            key = '%s stats.%s[].%s' % (std, f, p_)
            hits, v = got.get((f, p_), []), None
            if not hits:
                # assigned as part of an enclosing object
                for q in (p_.rsplit('.', 1)[0],):
                    for g in got.get((f, q), []):
                        hits = [(g[0], g[1], member(g[2], p_[len(q) + 1:]), g[3])]
            if not hits:
                some_ = any(k[0] == f for k in got)
                ctx.ob(key, (False if not sm.unknown and some_ and len(ren) == len(doms) else None), 'is not filled in', where)
                continue
            for good, idx, v, k in hits:
                ctx.ob(key + ' entry', good, 'entry %s of the list' % show(idx), where)
                ctx.same(key, v, w, where, as_, 'value for bank b of rank r')


def drain_one(ctx, std):
    fn = ctx.fn(D + std + 'Core::getLastCommandTime')
    ctx.same(std + ' core last command time', ctx.call(fn).ret, this.m_last_command_time, loc(fn))
    vals = dict(enumerators(ctx, D + 'CmdType'))
    fn = ctx.fn(D + std + 'Core::doCommand')
    for n in vals:
        if n == 'COUNT' or requirement(std, n) is None:
            continue
        sm = bound_run(ctx, fn, {('f', ('s', 'a0'), 'type'): ('enum', D + 'CmdType::' + n, vals[n])})
        drained(ctx, '%s %s' % (std, n), sm, T(A0.timestamp), loc(fn))
        lt_ = [v for k, v in sm.final().items() if k == T(this.m_last_command_time)]
        L = lastval(sm)
        ctx.same('%s %s last command time' % (std, n), lt_[0] if lt_ else L, max_(X(L), A0.timestamp), loc(fn), what='time of the last command')


def member(v, p_):
    for n in p_.split('.'):
        v = T(getattr(X(v), n)) if v[0] in ('f', 'i', 's') else ('f', v, n)
    return v


def lastval(sm):
    """value of the last command time after the queue was processed"""
    for e in sm.events:
        if e.kind == 'write' and e.d['loc'] == T(this.m_last_command_time):
            return T(this.m_last_command_time)
    return T(this.m_last_command_time)


def drained(ctx, key, sm, t, where):
    """the due deferred actions run first, up to time t"""
    calls = [e for e in sm.events if e.kind == 'call' and e.d['q'] == PROC]
    if len(calls) != 1:
        return ctx.ob(key + ' runs due deferred actions', None if sm.unknown else (False if not calls else None), '%d calls of processImplicitCommandQueue' % len(calls), where)
    e = calls[0]
    ctx.same(key + ' runs due deferred actions', and_(*[c for c in e.ctx]) if e.ctx else TRUE, TRUE, where, what='condition under which due deferred actions run')
    ctx.same(key + ' runs due deferred actions of its queue', e.d['obj'] or ZERO, this.m_implicitCommandHandler, where)
    ctx.same(key + ' runs deferred actions due by its time', e.d['args'][1], t, where, what='time up to which deferred actions run')
    l = e.d.get('locs') or []
    ctx.ob(key + ' deferred actions advance the last command time', T(this.m_last_command_time) in l if l else None, str([show(x) for x in l]), where)
    i = sm.events.index(e)
    for w in sm.events[:i]:
        if w.kind == 'write' and (prefix(T(this.m_ranks), w.d['loc']) or prefix(('s', 'stats'), w.d['loc'])) and not noise(w.d['loc']):
            ctx.ob(key + ' runs due deferred actions first', False, 'writes %s before' % show(w.d['loc']), w.where())
            break
    else:
        ctx.ob(key + ' runs due deferred actions first', True, '', where)
