"""Bus, pin and clock statistics."""
from core import *
from spec import *

D = 'DRAMPower::util::'
CNT = ('ones', 'zeroes', 'bit_changes', 'ones_to_zeroes', 'zeroes_to_ones')


def pc(x):
    return X(('popcount', T(x)))


def inv(x):
    return X(('bnot', T(x)))


def band(a, b):
    return X(('bit&', (T(a), T(b))))


def xor(a, b):
    return X(('bit^', (T(a), T(b))))


def diff(a, b, n, width):
    """counter n of one beat b that follows a beat a"""
    return {'ones': lambda: pc(b), 'zeroes': lambda: width - pc(b), 'bit_changes': lambda: pc(xor(a, b)),
            'ones_to_zeroes': lambda: pc(band(a, inv(b))), 'zeroes_to_ones': lambda: pc(band(inv(a), b))}[n]()


def sum_(name, lo, hi, body):
    i = ('ix', name)
    return X(('sum', i, ('rng', T(lo), T(hi)), T(body(X(i)))))


BS = this.burst_storage.m_bursts
L, IDLE, W, DR, PEND, N_ = this.last_load, this.idle_pattern_burst, this.width, this.datarate, this.pending_stats, BS.count
PRE = {T(BS.load_time): T(L)}


def pattern(k):
    return If(k - L < N_, X(('i', T(BS.bursts), T(N_ - 1 - (k - L)))), IDLE)


def idle_rw(t):
    """the statistics of one idle beat, as the constructor initialises them"""
    def f(x):
        if x[0] == 'f' and x[1] == T(this.idle_stats):
            return T(diff(IDLE, IDLE, x[2], W)) if x[2] in CNT else None
        return None
    return rewrite(t, f)


def bits_rw(t, *sets):
    """element k of a bit set is its bit k"""
    return rewrite(t, lambda x: ('tb', x[1], x[2]) if x[0] == 'i' and x[1] in sets else None)


def advanced(n, tv, enabled=True):
    """counter n brought forward to (not including) beat tv"""
    v = getattr(this.stats, n) + If(conj([PEND.m_pending, PEND.m_timestamp < tv]), getattr(PEND.m_stats, n), 0)
    return v + sum_('beat', L, tv - 1, lambda k: diff(pattern(k), pattern(k + 1), n, W))


def bus(ctx):
    B = D + 'Bus<64>::'
    with ctx.guard('diff'):
        f = ctx.fn(B + 'diff', 2)
        sm = ctx.call(f)
        for n in CNT:
            ctx.same('statistics of one beat: ' + n, sm.eng.project(sm.ret, ('f', n)), diff(A0, A1, n, W), loc(f))
    with ctx.guard('at'):
        f = ctx.fn(B + 'at', 1)
        ctx.same('pattern on the bus at a beat', ctx.call(f).ret, pattern(A0), loc(f), [T(A0 >= L)])
    with ctx.guard('constructor'):
        ctor(ctx, B)
    tv = A0 * DR
    with ctx.guard('get_stats'):
        f = ctx.fn(B + 'get_stats', 1)
        sm = ctx.run(f, [A0], pre=PRE)
        for n in CNT:
            got = idle_rw(T(sm.eng.project(sm.ret, ('f', n))))
            ctx.same('statistics, enabled: ' + n, got, advanced(n, tv), loc(f), [T(tv >= L), T(this.enableflag), T(tv > 0)])
            ctx.same('statistics, disabled: ' + n, got, getattr(this.stats, n), loc(f), [T(tv >= L), not_(truth(T(this.enableflag))), not_(truth(T(PEND.m_pending)))])
            ctx.same('statistics at time zero: ' + n, got, getattr(this.stats, n), loc(f), [eq(T(tv), N(0)), not_(lt(N(0), T(PEND.m_timestamp)))])
        ctx.effects('query', sm, PRE, loc(f))
    with ctx.guard('disable'):
        f = ctx.fn(B + 'disable', 1)
        sm = ctx.run(f, [A0], pre=PRE)
        on = [T(tv >= L), T(this.enableflag), T(tv > 0)]
        for n in CNT:
            ctx.same('disable: ' + n, idle_rw(sm.get(T(getattr(this.stats, n)))), advanced(n, tv), loc(f), on)
        ctx.same('disable: last beat before', sm.get(T(this.last_pattern)), pattern(tv - 1), loc(f), on)
        for k, v in ((N_, 0), (PEND.m_pending, False), (L, tv), (this.enableflag, False)):
            ctx.same('disable: ' + show(T(k)), sm.get(T(k)), v, loc(f), on)
        off = [not_(truth(T(this.enableflag)))]
        for k in [getattr(this.stats, n) for n in CNT] + [N_, L, this.enableflag, PEND.m_pending, this.last_pattern]:
            ctx.same('disable a disabled bus keeps ' + show(T(k)), sm.get(T(k)), k, loc(f), off)
    with ctx.guard('enable'):
        f = ctx.fn(B + 'enable', 1)
        sm = ctx.run(f, [A0], pre=PRE)
        off, on = [not_(truth(T(this.enableflag)))], [truth(T(this.enableflag))]
        want = {L: tv, BS.load_time: tv, PEND.m_timestamp: tv, PEND.m_pending: True, this.enableflag: True}
        for k, v in want.items():
            ctx.same('enable: ' + show(T(k)), sm.get(T(k)), v, loc(f), off)
            ctx.same('enable an enabled bus keeps ' + show(T(k)), sm.get(T(k)), PRE.get(T(k), k), loc(f), on)
        for n in CNT:
            ctx.same('enable: first beat ' + n, idle_rw(sm.get(T(getattr(PEND.m_stats, n)))), diff(IDLE, IDLE, n, W), loc(f), off)
            ctx.same('enable keeps ' + n, sm.get(T(getattr(this.stats, n))), getattr(this.stats, n), loc(f))
        ctx.same('enable keeps an empty storage', sm.get(T(N_)), N_, loc(f))
    for w, nb in ((3, 12), (5, 20), (8, 16), (16, 32), (3, 13), (1, 9)):
        for old in (0, (1 << w) - 1):
            with ctx.guard('load %d bits on %d lines' % (nb, w)):
                load(ctx, B, w, nb, old)
    with ctx.guard('load a number'):
        for w, bl in ((7, 2), (14, 1), (6, 4), (27, 1)):
            load_number(ctx, B, w, bl)
    with ctx.guard('insert inverted'):
        insert(ctx)
    with ctx.guard('pending statistics'):
        pending(ctx)
    return dict(explain='each public operation of the bus is summarised over an arbitrary state (the invariant load time = last load is part of the state description) and compared with the wave form: beat k carries the loaded chunk, otherwise the idle pattern; counters are the sum over beats of ones, zeroes and transitions. Loading is evaluated for several widths and lengths with symbolic data.',
                assumptions=['times do not go backwards and bursts do not overlap (documented by assertions)'], floor=150)


def ctor(ctx, B):
    f = ctx.fn(B + 'Bus', 4)
    ps = dict(enums(ctx, D + 'BusIdlePatternSpec'))
    for w in (1, 5, 16):
        for nm, v in (('L', 0), ('H', (1 << w) - 1)):
            sm = ctx.run(f, [X(N(w)), A1, X(ps[nm]), A3], concrete=64)
            k = 'constructor, %d lines idle %s: ' % (w, nm)
            idle = full(sm, IDLE)
            ctx.same(k + 'idle pattern', pc(X(idle)), bin(v).count('1'), loc(f))
            ctx.same(k + 'last pattern', pc(xor(X(full(sm, this.last_pattern)), X(idle))), 0, loc(f))
            for n in CNT:
                d = diff(X(N(v)), X(N(v)), n, w)
                ctx.same(k + 'idle beat ' + n, sm.get(T(getattr(this.idle_stats, n))), d, loc(f))
                ctx.same(k + 'first beat ' + n, sm.get(T(getattr(PEND.m_stats, n))), d, loc(f), [T(A3)])
                ctx.same(k + 'counter ' + n, sm.get(T(getattr(this.stats, n))), 0, loc(f))
            for a, b in ((L, 0), (BS.load_time, 0), (N_, 0), (W, w), (DR, A1), (this.enableflag, A3), (PEND.m_timestamp, 0), (PEND.m_pending, A3)):
                ctx.same(k + show(T(a)), sm.get(T(a)), b, loc(f))


def enums(ctx, q):
    from rules.command import enumerators
    return [(n, ('enum', q + '::' + n, v)) for n, v in enumerators(ctx, q)]


def full(sm, x):
    """value of a bit set with the bits written to it"""
    return sm.get(T(x))


def bit(ptr, k):
    return X(('tb', ('i', ('d', T(ptr)), N(k // 8)), N(k % 8)))


def number(bits):
    v = X(N(0))
    for j, b in enumerate(bits):
        v = v + If(b, 1 << j, 0)
    return v


def loaded(ctx, key, f, sm, w, chunks, tv, on):
    """state after a load of the given chunks (numbers, in order of the data; the last is sent first)"""
    at0 = chunks[-1]
    prev = If(tv == 0, this.last_pattern, pattern(tv - 1))
    for n in CNT:
        ctx.same(key + 'advances ' + n, sub_w(idle_rw(sm.get(T(getattr(this.stats, n)))), w), sub_w(T(advanced(n, tv)), w), loc(f), on)
        ctx.same(key + 'first beat ' + n, sub_w(sm.get(T(getattr(PEND.m_stats, n))), w), sub_w(T(diff(prev, at0, n, W)), w), loc(f), on)
    for a, b in ((PEND.m_timestamp, tv), (PEND.m_pending, True), (L, tv), (BS.load_time, tv), (N_, len(chunks))):
        ctx.same(key + show(T(a)), sm.get(T(a)), b, loc(f), on)
    for i, c in enumerate(chunks):
        got = sm.get(('i', T(BS.bursts), N(i)))
        for j in range(w):
            g = X(sm.get(('i', ('i', T(BS.bursts), N(i)), N(j))))
            ctx.same(key + 'chunk %d bit %d' % (i, j), truth(T(g)), truth(('tb', T(c), N(j))), loc(f), on)
    ctx.same(key + 'last pattern', pc(xor(X(sm.get(T(this.last_pattern))), chunks[0])), 0, loc(f), on)


def sub_w(t, w):
    return subst(t, {T(W): N(w)})


def load_pre(w, old):
    return {**PRE, T(W): N(w), T(BS.bursts): ('list', tuple(N(old) for _ in range(40)))}


def load(ctx, B, w, nb, old):
    f = ctx.fn(B + 'load', 3, lambda f: 'char' in f['params'][1]['t']['t'])
    pre = load_pre(w, old)
    sm = ctx.run(f, [A0, A1, X(N(nb))], pre=pre, concrete=64)
    tv = A0 * DR
    on = [T(tv >= L + N_), T(this.enableflag)]
    n = nb // w
    oldrw = {('i', T(BS.bursts), N(i)): N(old) for i in range(40)}
    ch = [number([bit(A1, i * w + j) for j in range(w)]) for i in range(n)]
    key = 'load %d bits on %d lines over %s: ' % (nb, w, 'ones' if old else 'zeroes')
    loaded_old(ctx, key, f, sm, w, ch, tv, on, old)
    off = [not_(truth(T(this.enableflag)))]
    for k in [getattr(this.stats, c) for c in CNT] + [L, N_, PEND.m_pending, PEND.m_timestamp]:
        ctx.same(key + 'a disabled bus keeps ' + show(T(k)), sm.get(T(k)), k, loc(f), off)
    ctx.same(key + 'a disabled bus keeps its last pattern', pc(xor(X(bits_rw(sm.get(T(this.last_pattern)), T(this.last_pattern))), this.last_pattern)), 0, loc(f), off)


def loaded_old(ctx, key, f, sm, w, ch, tv, on, old):
    global pattern
    save = pattern
    try:
        pattern = lambda k: If(k - L < N_, X(N(old)), IDLE)
        loaded(ctx, key, f, sm, w, ch, tv, on + [T(N_ <= 40)])
    finally:
        pattern = save


def load_number(ctx, B, w, bl):
    f = ctx.fn('DRAMPower::util::Bus<27>::load', 3, lambda f: 'char' not in f['params'][1]['t']['t'])
    sm = ctx.run(f, [A0, A1, X(N(bl))], pre=load_pre(w, 0), concrete=64)
    tv = A0 * DR
    ch = [number([X(('tb', T(A1), N(i * w + j))) for j in range(w)]) for i in range(bl)]
    loaded_old(ctx, 'load a number, %d beats on %d lines: ' % (bl, w), f, sm, w, ch, tv, [T(tv >= L + N_), T(this.enableflag)], 0)


def insert(ctx):
    f = ctx.fn(D + 'BurstStorageInsertHelper::insert_data<64UL>')
    s = S('bs').m_bursts
    for w, nb in ((3, 12), (8, 24)):
        for iv in (False, True):
            sm = ctx.run(f, [S('bs'), A1, X(N(w)), A3, X(N(nb)), X(N(int(iv))) if 0 else iv], None, pre={T(s.bursts): ('list', tuple(N(0) for _ in range(40)))}, concrete=64)
            k = 'insert %d bits on %d lines%s: ' % (nb, w, ' inverted' if iv else '')
            for i in range(nb // w):
                for j in range(w):
                    b = truth(T(bit(A3, i * w + j)))
                    ctx.same(k + 'chunk %d bit %d' % (i, j), truth(sm.get(('i', ('i', T(s.bursts), N(i)), N(j)))), not_(b) if iv else b, loc(f))
            ctx.same(k + 'count', sm.get(T(s.count)), nb // w, loc(f))
            ctx.same(k + 'load time', sm.get(T(s.load_time)), A1, loc(f))


def pending(ctx):
    for q in [r for r in ctx.F.records if r.startswith(D + 'PendingStats<')]:
        f = ctx.fn(q + '::setPendingStats', 2)
        sm = ctx.call(f)
        ctx.same(q + ' set: time', sm.get(T(this.m_timestamp)), A0, loc(f))
        ctx.same(q + ' set: pending', sm.get(T(this.m_pending)), True, loc(f))
        for n in [x['n'] for x in ctx.rec(D + ('PinPendingStats' if 'Pin' in q else 'bus_stats_t'))['fields']]:
            ctx.same(q + ' set: ' + n, sm.get(T(getattr(this.m_stats, n))), getattr(A1, n), loc(f))
        f = ctx.fn(q + '::clear', 0)
        ctx.same(q + ' clear', ctx.call(f).get(T(this.m_pending)), False, loc(f))
        for n, m in (('isPending', 'm_pending'), ('getTimestamp', 'm_timestamp')):
            f = ctx.fn(q + '::' + n, 0)
            ctx.same(q + ' ' + n, ctx.call(f).ret, getattr(this, m), loc(f))


# ---- single pins and clocks
def change(a, b, n):
    """transition counters of a level change; the high impedance level does not count"""
    lo, hi = LEVEL['L'], LEVEL['H']
    up, down = conj([eq_(a, lo), eq_(b, hi)]), conj([eq_(a, hi), eq_(b, lo)])
    return {'zeroes_to_ones': If(up, 1, 0), 'ones_to_zeroes': If(down, 1, 0), 'bit_changes': If(up, 1, 0) + If(down, 1, 0)}.get(n, X(N(0)))


LEVEL = {}
PIN = this.m_burst_storage.m_bursts
PL, PN, IDL, LST, INIT, PP = this.m_last_set, PIN.count, this.m_idle_state, this.m_last_state, this.m_init_load, this.m_pending_stats


def eq_(a, b):
    return X(eq(T(a), T(b)))


def line(k):
    return X(truth(('tb', T(PIN.bitset), T(k))))


def pin_adds(n, tv):
    """what a line adds to counter n from its last change up to beat tv"""
    m = If(PN < tv - PL, PN, tv - PL)
    lo, hi = LEVEL['L'], LEVEL['H']
    last = If(line(PN - 1), hi, lo)
    idle_for = If(PL + PN < tv, tv - (PL + PN), 0)
    ones = sum_('bit', 0, m, lambda i: If(line(i), 1, 0))
    r = {'ones': ones + If(eq_(IDL, hi), idle_for, 0),
         'zeroes': m - ones + If(eq_(IDL, lo), idle_for, 0),
         'ones_to_zeroes': sum_('bit', 0, m - 1, lambda i: If(conj([line(i), neg(line(i + 1))]), 1, 0)),
         'zeroes_to_ones': sum_('bit', 0, m - 1, lambda i: If(conj([neg(line(i)), line(i + 1)]), 1, 0)),
         'bit_changes': sum_('bit', 0, m - 1, lambda i: If(X(eq(T(line(i)), T(line(i + 1)))), 0, 1))}[n]
    return If(PL < tv, change(LST, IDL, n) * If(INIT, 1, 0)
              + If(conj([PP.m_pending, PP.m_timestamp < tv]), change(PP.m_stats.fromstate, PP.m_stats.newstate, n), 0)
              + If(conj([PN > 0, PL + PN < tv]), change(last, IDL, n), 0) + r, 0)


def neg(x):
    return X(not_(truth(T(x))))


def pins(ctx):
    Q = D + 'Pin<8>::'
    LEVEL.update({k: X(v) for k, v in enums(ctx, D + 'PinState')})
    pre = {T(PIN.load_time): T(PL)}
    tv = A0 * A1

    def rw(t):
        def g(x):
            if x == ('allones',):
                return N(255)
            if x[0] == 'i' and x[1] == T(PIN.bitset):
                return ('tb', x[1], x[2])
        return rewrite(t, g)

    def state(tv):
        return [T(PN <= 8), T(X(or_(T(tv >= PL + PN), eq(T(tv), T(PL))))), T(X(eq(T(X(eq(T(PN), N(0)))), truth(T(INIT))))),
                or_(not_(truth(T(INIT))), eq(T(PL), N(0))),
                T(X(or_(not_(truth(T(PP.m_pending))), eq(T(PP.m_timestamp), T(PL))))), not_(eq(T(A1), N(0)))]
    with ctx.guard('pin get_stats_at'):
        f = ctx.fn(Q + 'get_stats_at', 2)
        sm = ctx.run(f, [A0, A1], pre=pre)
        for n in CNT:
            ctx.same('line statistics: ' + n, rw(T(sm.eng.project(sm.ret, ('f', n)))), getattr(this.m_stats, n) + pin_adds(n, tv), loc(f), state(tv))
        ctx.effects('line query', sm, pre, loc(f))
    with ctx.guard('pin set'):
        f = ctx.fn(Q + 'set', 3)
        sm = ctx.run(f, [A0, A1, A2], pre=pre)
        tv = A0 * A2
        st = [subst(x, {T(A1): T(A2)}) for x in state(tv)]
        for n in CNT:
            ctx.same('line set: ' + n, rw(sm.get(T(getattr(this.m_stats, n)))), getattr(this.m_stats, n) + pin_adds(n, tv), loc(f), st)
        new = X(or_(not_(eq(T(tv), T(PL))), truth(T(INIT))))
        frm = If(X(or_(eq(T(tv), T(PL + PN)), conj_t([INIT, eq_(tv, 0)]))), LST, IDL)
        ctx.same('line set: pending', X(truth(sm.get(T(PP.m_pending)))), X(or_(T(new), conj_t([PP.m_pending, PP.m_timestamp >= tv]))), loc(f), st)
        for k, v in ((PP.m_timestamp, tv), (PP.m_stats.fromstate, frm), (PP.m_stats.newstate, A1)):
            ctx.same('line set: ' + show(T(k)), rw(sm.get(T(k))), If(new, v, k), loc(f), st)
        at_ = If(eq_(tv, PL), PN, 0)
        ctx.same('line set: number of beats', sm.get(T(PN)), at_ + 1, loc(f), st)
        for k, v in ((PIN.load_time, tv), (PL, tv), (LST, A1)):
            ctx.same('line set: ' + show(T(k)), sm.get(T(k)), v, loc(f), st)
        ctx.same('line set: first change made', X(truth(sm.get(T(INIT)))), False, loc(f), st)
        for j in range(8):
            got = X(truth(rw(sm.get(('i', T(PIN.bitset), N(j))))))
            ctx.same('line set: beat %d' % j, got, If(eq_(at_, j), eq_(A1, LEVEL['H']), line(j)), loc(f), st)
    with ctx.guard('pin constructor'):
        f = ctx.fn(Q + 'Pin', 2)
        sm = ctx.run(f, [A0, A1])
        for k, v in ((LST, A0), (IDL, A1), (INIT, True), (PL, 0), (PN, 0), (PIN.load_time, 0), (PP.m_pending, False)):
            ctx.same('line constructor: ' + show(T(k)), sm.get(T(k)), v, loc(f))
        for n in CNT:
            ctx.same('line constructor: ' + n, sm.get(T(getattr(this.m_stats, n))), 0, loc(f))
    clocks(ctx)
    return dict(explain='summaries of set, get_stats_at and the constructor of a single line and of start, stop and get_stats_at of a clock over an arbitrary state, compared with the level over time: pushed beats, then the idle level; the clock halves its cycles between high and low with one rise and one fall per cycle.',
                assumptions=['times do not go backwards', 'a burst on a line is at most as long as the line stores'], floor=40)


def conj_t(l):
    return T(conj(l))


def clocks(ctx):
    C = D + 'Clock::'
    last = this.last_start
    dr = this.dataRate

    def cyc(d, n):
        h = X(idiv(T(d * dr), N(2)))
        return h * 2 if n == 'bit_changes' else h
    with ctx.guard('clock'):
        f = ctx.fn(C + 'stop', 1)
        sm = ctx.run(f, [A0])
        run = [truth(('has', T(last))), T(A0 > X(('f', T(last), '$val')))]
        v = X(('f', T(last), '$val'))
        for n in CNT:
            ctx.same('clock stop: ' + n, sm.get(T(getattr(this.stats, n))), getattr(this.stats, n) + cyc(A0 - v, n), loc(f), run)
        ctx.same('clock stop', X(truth(sm.eng.has(sm.get(T(last))))), False, loc(f), run)
        f = ctx.fn(C + 'start', 1)
        sm = ctx.run(f, [A0])
        ctx.same('clock start', sm.get(T(last)), X(('some', T(A0))), loc(f))
        for n in CNT:
            ctx.same('clock start keeps ' + n, sm.get(T(getattr(this.stats, n))), getattr(this.stats, n), loc(f))
        f = ctx.fn(C + 'get_stats_at', 1)
        sm = ctx.run(f, [A0])
        for n in CNT:
            got = sm.eng.project(sm.ret, ('f', n))
            ctx.same('clock statistics, running: ' + n, got, getattr(this.stats, n) + cyc(A0 - v, n), loc(f), [truth(('has', T(last))), T(A0 >= v)])
            ctx.same('clock statistics, stopped: ' + n, got, getattr(this.stats, n), loc(f), [not_(truth(('has', T(last))))])
        ctx.effects('clock query', sm, {}, loc(f))
        f = ctx.fn(C + 'Clock', 2)
        sm = ctx.run(f, [A0, A1])
        ctx.same('clock constructor: data rate', sm.get(T(dr)), A0, loc(f))
        for n in CNT:
            ctx.same('clock constructor: ' + n, sm.get(T(getattr(this.stats, n))), 0, loc(f))
        ctx.same('clock constructor: runs from zero', sm.get(T(last)), X(('some', N(0))), loc(f), [not_(truth(T(A1)))])
        ctx.same('clock constructor: stopped', sm.get(T(last)), X(('none',)), loc(f), [truth(T(A1))])
