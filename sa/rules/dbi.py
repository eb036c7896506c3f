"""Data bus inversion: decision, inverted data, line changes and their time."""
from core import *
from spec import *
import ri
import random

NS = 'DRAMPower::util::'
CLS = [('%sDBI<unsigned char, 1, %sPinState::H, %sStaticDBI>' % (NS, NS, NS), 1, 'H'),
       ('%sDBI<unsigned char, 1, %sPinState::L, %sStaticDBI>' % (NS, NS, NS), 1, 'L'),
       ('%sDBI<unsigned char, 2, %sPinState::L, %sStaticDBI>' % (NS, NS, NS), 2, 'L')]


def trace(ctx, key, got, want, group, where, assume=()):
    """the calls (guard, arguments) happen under the same conditions with the same arguments, in the same order per group"""
    rnd = random.Random(ctx.seed)
    assume = [T(a) for a in assume]
    got, want = [(T(g), [T(x) for x in a]) for g, a in got], [(T(g), [T(x) for x in a]) for g, a in want]
    if any(ri.opaque(x) for g, a in got for x in [g] + a):
        return ctx.ob(key, None, 'calls not understood', where)
    done = 0
    for _ in range(3000):
        v = ri.Val(rnd.getrandbits(60))
        try:
            if not all(v.tr(c, ()) for c in assume):
                continue
            r = []
            for l in (got, want):
                d = {}
                for g, a in l:
                    if v.tr(g, ()):
                        a = tuple(v.scalar(v.ev(x)) for x in a)
                        a = tuple(int(x) if isinstance(x, bool) else x for x in a)
                        d.setdefault(group(a), []).append(a)
                r.append(d)
        except ri.Skip:
            continue
        except (OverflowError, ValueError, ZeroDivisionError, TypeError, RecursionError):
            return ctx.ob(key, None, 'calls not understood', where)
        if r[0] != r[1]:
            return ctx.ob(key, False, 'calls found %s ; required %s' % (show_calls(got), show_calls(want)), where)
        done += 1
        if done >= 120:
            break
    return ctx.ob(key, True if done else None, 'no state satisfies the assumptions', where)


def show_calls(l):
    return '; '.join('%s if %s' % (tuple(show(x)[:80] for x in a), show(g)[:160]) for g, a in l)[:1200]


def byte(j):
    return X(('i', ('d', T(A2)), N(j)))


def ones(x):
    return X(('popcount', T(x)))


def decide(c, sub, level):
    n = ones(byte(c * sub))
    for k in range(1, sub):
        n = n + ones(byte(c * sub + k))
    z = 8 * sub - n
    return n > z if level == 'L' else n < z


def last(read):
    return this.m_lastBurst_read if read else this.m_lastBurst_write


def setup(sub, cpw, old, chunks):
    """state with `old` chunks in the last bursts; the inversion flags are arbitrary"""
    pre = {T(this.m_width): ('none',) if cpw is None else ('some', N(cpw * 8 * sub)), T(this.m_invertedData): ('list', tuple(T(S('old%d' % i)) for i in range(old * sub)))}
    for r in (True, False):
        pre[T(last(r).m_inversions)] = ('list', tuple(T(flag(r, i)) for i in range(max(old, 0))))
        pre[T(last(r).m_n_chunks)] = N(old)
    return pre


def flag(r, i):
    return X(truth(('s', 'inv_%s_%d' % ('r' if r else 'w', i))))


def resets(t, read, cpw, old, live=True):
    lb = last(read)
    c = conj([lb.m_init, t > lb.m_end, X(not_(eq(T(this.m_changeCallback), ('null',)))), live])
    lo = 0 if cpw is None else old - cpw
    return [(conj([c, flag(read, k)]), [lb.m_end, lb.m_end, k if cpw is None else k % cpw, 0, int(read)]) for k in range(max(lo, 0), old)]


def calls(sm):
    return [(e.guard(), e.d['args']) for e in sm.events if e.kind == 'call' and e.d.get('q') == 'std::function::operator()']


def dbi(ctx):
    for cls, sub, level in CLS:
        short = 'chunk of %d bits, idle %s' % (8 * sub, level)
        for cpw, old, n in ((None, 2, 2), (None, 3, 1), (2, 4, 4), (1, 2, 3), (2, 2, 6), (3, 6, 3)):
            for read in (True, False):
                with ctx.guard(short + ' update'):
                    update(ctx, cls, sub, level, cpw, old, n, read, '%s, %s lines, %d then %d chunks, %s: ' % (short, cpw, old, n, 'read' if read else 'write'))
        with ctx.guard(short + ' idle data'):
            small(ctx, cls, sub, level, short + ': ')
    return dict(explain='updateDBI, the reset of the lines and the queries are summarised for every instantiated DBI class with symbolic data, inversion flags, times and enable state, for several widths, numbers of lines and burst lengths, and compared with: invert a chunk when more of its bits differ from the idle level than agree with it; report the state of every chunk at its beat; release lines when a burst that is not followed seamlessly ends.',
                assumptions=['the number of bits is a multiple of the chunk size and of the bus width (documented by assertions)', 'bursts of one direction do not overlap'], floor=600)


def update(ctx, cls, sub, level, cpw, old, n, read, k):
    f = ctx.fn(cls + '::updateDBI', 4)
    pre = setup(sub, cpw, old, n)
    sm = ctx.run(f, [A0, X(N(n * sub * 8)), A2, X(TRUE if read else FALSE)], pre=pre, concrete=64)
    on = conj([this.m_enable, X(truth(T(A2)))])
    cb = X(not_(eq(T(this.m_changeCallback), ('null',))))
    off = [not_(T(on))]
    lb = last(read)
    st = [T(X(or_(not_(truth(T(lb.m_init))), T(A0 >= lb.m_end))))]
    want = resets(A0, read, cpw, old, on)
    for c in range(n):
        want.append((conj([on, cb]), [A0, A0 if cpw is None else A0 + c // cpw, c if cpw is None else c % cpw, decide(c, sub, level), int(read)]))
    trace(ctx, k + 'line changes', calls(sm), want, lambda a: a[2], loc(f), st)
    ctx.same(k + 'inverted data is returned when on', X(truth(sm.eng.has(sm.ret))), on, loc(f), st)
    for j in range(n * sub):
        d = decide(j // sub, sub, level)
        x = sm.get(('i', T(this.m_invertedData), N(j)))
        for b in range(8):
            bitv = X(truth(('tb', T(byte(j)), N(b))))
            g = X(truth(('tb', T(x), N(b))))
            if b in (0, 3, 7):
                ctx.same(k + 'byte %d bit %d' % (j, b), g, If(d, X(not_(T(bitv))), bitv), loc(f), st + [T(on)])
    ctx.same(k + 'the inverted data is returned', sm.eng.project(sm.ret, ('f', '$val')), X(('addr', ('i', T(this.m_invertedData), N(0)))), loc(f), st + [T(on)])
    for c in range(n):
        ctx.same(k + 'state of chunk %d' % c, X(truth(sm.get(('i', T(lb.m_inversions), N(c))))), decide(c, sub, level), loc(f), st + [T(on)])
    end = A0 + (n // cpw if cpw else this.m_burstLength)
    for loc_, v in ((lb.m_end, end), (lb.m_n_chunks, n), (lb.m_init, True), (this.lastBurstRead, read)):
        ctx.same(k + show(T(loc_)), val_(sm.get(T(loc_)), v), v, loc(f), st + [T(on)])
        ctx.same(k + show(T(loc_)) + ' when off', sm.get(T(loc_)), pre.get(T(loc_), loc_), loc(f), st + off)
    o = last(not read)
    for loc_ in (o.m_end, o.m_n_chunks, o.m_init):
        ctx.same(k + 'the other direction keeps ' + show(T(loc_)), sm.get(T(loc_)), pre.get(T(loc_), loc_), loc(f), st)
    for c in range(old):
        ctx.same(k + 'the other direction keeps state %d' % c, X(truth(sm.get(('i', T(o.m_inversions), N(c))))), flag(not read, c), loc(f), st)


def val_(g, v):
    return X(truth(g)) if isinstance(v, bool) else g


def small(ctx, cls, sub, level, k):
    # release of the lines
    for cpw, old in ((None, 3), (2, 4), (1, 1), (2, 2)):
        f = ctx.fn(cls + '::dispatchResetCallback', 1)
        sm = ctx.run(f, [A0], pre=setup(sub, cpw, old, 0), concrete=64)
        want = resets(A0, True, cpw, old) + resets(A0, False, cpw, old)
        kk = k + 'release %s lines after %d chunks: ' % (cpw, old)
        trace(ctx, kk + 'line changes', calls(sm), want, lambda a: (a[2], a[4]), loc(f))
        for r in (True, False):
            lb = last(r)
            c = conj([lb.m_init, A0 > lb.m_end, X(not_(eq(T(this.m_changeCallback), ('null',))))])
            for i in range(0 if cpw is None else old - cpw, old):
                ctx.same(kk + 'state %d %s' % (i, r), X(truth(sm.get(('i', T(lb.m_inversions), N(i))))), If(c, X(FALSE), flag(r, i)), loc(f), [not_(eq(T(this.m_changeCallback), ('null',)))])
            for x in (lb.m_end, lb.m_n_chunks, lb.m_init):
                ctx.same(kk + 'keeps ' + show(T(x)), sm.get(T(x)), setup(sub, cpw, old, 0).get(T(x), x), loc(f))
    for n, v in (('enable', None), ('isEnabled', this.m_enable)):
        f = ctx.fn(cls + '::' + n, must=False)
        if f is None:
            continue
        sm = ctx.call(f)
        if v is None:
            ctx.effects(k + n, sm, {this.m_enable: A0}, loc(f))
        else:
            ctx.same(k + n, sm.ret, v, loc(f))
    for n, r in (('getInversionStateRead', True), ('getInversionStateWrite', False)):
        f = ctx.fn(cls + '::' + n, must=False)
        if f is not None:
            ctx.same(k + n, ctx.call(f).ret, X(('addr', T(last(r).m_inversions))) if 0 else last(r).m_inversions, loc(f))
    for n, r in (('getInversionSizeRead', True), ('getInversionSizeWrite', False)):
        f = ctx.fn(cls + '::' + n, must=False)
        if f is not None:
            ctx.same(k + n, ctx.call(f).ret, last(r).m_n_chunks * sub, loc(f))
    f = ctx.fn(cls + '::getLastBurstEnd', 1, must=False)
    if f is not None:
        sm = ctx.call(f)
        lb = If(A0, this.m_lastBurst_read.m_init, this.m_lastBurst_write.m_init)
        ctx.same(k + 'last burst end known', X(truth(sm.eng.has(sm.ret))), X(truth(T(lb))), loc(f))
        ctx.same(k + 'last burst end', sm.eng.project(sm.ret, ('f', '$val')), If(A0, this.m_lastBurst_read.m_end, this.m_lastBurst_write.m_end), loc(f), [truth(T(lb))])
    f = ctx.fn(cls + '::getChunksPerWidth', 0)
    for cpw in (None, 1, 3):
        sm = ctx.run(f, [], pre={T(this.m_width): ('none',) if cpw is None else ('some', N(cpw * 8 * sub))})
        ctx.same(k + 'lines for %s' % cpw, X(truth(sm.eng.has(sm.ret))), X(TRUE if cpw else FALSE), loc(f))
        if cpw:
            ctx.same(k + 'number of lines for %s' % cpw, sm.eng.project(sm.ret, ('f', '$val')), cpw, loc(f))
    f = ctx.fn(cls + '::getInvertedData', 0, must=False)
    if f is not None:
        sm = ctx.call(f)
        ctx.same(k + 'size of the inverted data', sm.eng.project(sm.ret, ('f', '$1')), If(this.lastBurstRead, this.m_lastBurst_read.m_n_chunks, this.m_lastBurst_write.m_n_chunks) * sub, loc(f))
    fs = [f for f in ctx.fns_of('DBI<') if f['q'].startswith(cls + '::DBI') and f.get('ctor')] or [f for f in ctx.fns_of('.') if f['q'].startswith(cls + '::DBI<')]
    for f in fs:
        sm = ctx.call(f)
        lb = this.m_lastBurst_read
        for x, v in ((this.m_width, A0), (this.m_burstLength, A1), (this.m_enable, A3)):
            ctx.same(k + 'constructor ' + show(T(x)), sm.get(T(x)), v, loc(f))
        for x in (this.m_lastBurst_read.m_init, this.m_lastBurst_write.m_init):
            ctx.same(k + 'constructor ' + show(T(x)), X(truth(sm.get(T(x)))), False, loc(f))
