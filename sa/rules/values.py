"""Value classes: dynamic_bitset, sub_bitset, bit transition helpers, interval counter."""
from core import *
from spec import *

U = 'DRAMPower::util::'


def seqs(ctx, q, n, **kw):
    return [f for f in ctx.byq.get(q, []) + [f for k, l in ctx.byq.items() if k.startswith(q + '<') and '::' not in k[len(q):].split('>')[-1] for f in l] if len(f['params']) == n and (f.get('body') is not None or f.get('ctor')) and not f['implicit'] and not f['defaulted']]


# ------------------------------------------------------------------------------------------------ dynamic_bitset
class Bits:
    """view of a dynamic_bitset<bs> object as a bit sequence"""

    def __init__(self, ctx, bs):
        self.ctx, self.bs = ctx, bs

    def rw(self, sm):
        bs, eng = self.bs, sm.eng

        def block(x):
            return x[0] == 'i' and x[1][0] == 'f' and x[1][2] == 'buffer'

        def f(x):
            if x[0] == 'size' and x[1][0] == 'f' and x[1][2] == 'buffer':
                n = X(x[1][1]).num_bits
                return (n + bs - 1) // bs
            if x[0] == 'i' and x[1][0] == 'f' and x[1][2] == 'lastelementmask':
                n = X(x[1][1]).num_bits
                return X(x[2]) < n % bs
            if x[0] == 'i' and block(x[1]):
                n = X(x[1][1][1]).num_bits
                ix = bs * X(x[1][2]) + X(x[2])
                return has(('bits', x[1][1][1], ix.t)) & (ix < n)
            if x[0] == 'eq' and any(y[0] == 'f' and y[2] == 'buffer' for y in x[1:]):
                # whole containers: same number of blocks, no differing bit
                j = ('ix', 'j')
                s1, s2 = (rewrite(eng.size(y), f) for y in x[1:])
                n1 = [X(y[1]).num_bits for y in x[1:] if y[0] == 'f' and y[2] == 'buffer'][0]
                a, b = (T(has(('bits', y[1], j)) & (X(j) < X(y[1]).num_bits)) if y[0] == 'f' and y[2] == 'buffer' else T(self.at2(f, eng, y, j)) for y in x[1:])
                return T(X(eq(s1, s2)) & X(not_(('pred', 'any', j, ('rng', ZERO, T((n1 + bs - 1) // bs * bs)), or_(and_(a, not_(b)), and_(not_(a), b))))))
            if x[0] == 'eq' and (block(x[1]) or block(x[2])):
                j = ('ix', 'j')
                a, b = (truth(eng.project(y, ('i', j))) for y in (x[1], x[2]))
                d = or_(and_(a, not_(b)), and_(not_(a), b))
                return not_(rewrite(('pred', 'any', j, ('rng', ZERO, N(bs)), d), f))
            if x[0] == 'popcount':
                j = ('ix', 'p')
                a = truth(eng.project(x[1], ('i', j)))
                return rewrite(('sum', j, ('rng', ZERO, N(bs)), ite(a, ONE, ZERO)), f)
            return None
        return lambda t: rewrite(t, f)

    def bit(self, o, k):
        k = X(k)
        return has(('bits', T(o), k.t)) & (k < X(o).num_bits)

    def at2(self, f, eng, buf, k):
        p = eng.project
        return rewrite(truth(p(p(buf, ('i', T(X(k) // self.bs))), ('i', T(X(k) % self.bs)))), f)

    def at(self, sm, buf, k):
        """bit k of the final buffer value"""
        p = sm.eng.project
        return self.rw(sm)(truth(p(p(buf, ('i', T(X(k) // self.bs))), ('i', T(X(k) % self.bs)))))

    def state(self, key, sm, base, n2, bit2, fn, assume=()):
        """the object at location base has n2 bits, bit k being bit2(k), and a clean tail"""
        c, bs, rw = self.ctx, self.bs, self.rw(sm)
        k = S('k')
        ass = [X(('s', 'k')) >= 0, A0 >= 0, this.num_bits <= 40, this.num_bits >= 0] + [T(a) for a in assume]
        get = (lambda *p: sm.get(self.loc(base, p))) if base is not None else None
        if base is not None:
            nb = sm.get(T(X(base).num_bits))
            buf = T(X(base).buffer)
            at = lambda q: rw(truth(sm.get(T(X(buf)[X(q) // bs][X(q) % bs]))))
            size = sm.eng.size(sm.get(buf))
            mask = lambda j: rw(truth(sm.get(T(X(base).lastelementmask[j]))))
        else:
            p = sm.eng.project
            nb = p(sm.ret, ('f', 'num_bits'))
            b = p(sm.ret, ('f', 'buffer'))
            at = lambda q: self.at(sm, b, q)
            size = sm.eng.size(b)
            mask = lambda j: rw(truth(p(p(sm.ret, ('f', 'lastelementmask')), ('i', T(j)))))
        w = loc(fn)
        c.same(key + ': number of bits', rw(nb), n2, w, ass)
        if T(n2) == ZERO:
            c.same(key + ': storage', rw(size), 0, w, ass, 'number of blocks')
            return
        c.same(key + ': bits', at(k), bit2(k), w, ass + [k < X(n2)], 'bit k, k < size')
        if size[0] == 'size':
            size = rw(size)
        c.same(key + ': storage', rw(size), (X(n2) + bs - 1) // bs, w, ass, 'number of blocks')
        c.same(key + ': unused bits', at(k), FALSE, w, ass + [k >= X(n2), k // bs < (X(n2) + bs - 1) // bs], 'bit k of the last block, k >= size')
        if 'clear' not in key:
            c.same(key + ': block mask', mask(k), k < X(n2) % bs, w, ass + [k < bs, X(n2) % bs != 0], 'mask bit k of the last block')


def same_dynamic(ctx, bs):
    B = Bits(ctx, bs)
    cls = U + 'dynamic_bitset<%d>' % bs
    nm = 'dynamic_bitset'
    n = this.num_bits
    bit = lambda k: B.bit(this, k)
    rhs = lambda k: B.bit(A0, k)
    xor = lambda a, b: (a & ~b) | (~a & b)
    R = 'dynamic_bitset<%d> ' % bs

    def each(op, np, k=None, pick=None):
        l = [f for f in seqs(ctx, cls + '::' + op, np) if pick is None or pick(f)]
        if not l:
            raise AnalysisBroken('no %s::%s' % (cls, op))
        for f in l:
            yield f, ctx.call(f)
    dflt = lambda f: not f['defaulted'] and not f['implicit']
    for f, s in each(nm, 1, pick=dflt):
        if f['params'][0]['t'].get('k') == 'u':
            B.state(R + 'constructor(n)', s, this, A0, lambda k: FALSE, f, [A0 <= 60])
    for f, s in each(nm, 2):
        B.state(R + 'constructor(n, value)', s, this, A0, lambda k: tb(A1.t, T(k)), f, [A0 <= 60])
        w = ctx.run(f, [X(70), A1.t])
        buf = w.get(T(this.buffer))
        for q in (0, 5, 63, 64, 65, 69):
            ctx.same(R + 'constructor(n, value) of more than 64 bits: bit %d' % q, B.at(w, buf, T(q)), tb(A1.t, T(q)) if q < 64 else FALSE, loc(f))
    bv = lambda f: f['params'][0]['t'].get('k') == 'b'
    for f, s in each('push_back', 1):
        B.state(R + 'push_back', s, this, n + 1, lambda k: If(k < n, bit(k), A0 != 0), f)
    for f, s in each('set', 2):
        B.state(R + 'set(i, v)', s, this, n, lambda k: If(k == A0, A1 != 0, bit(k)), f, [A0 < n])
    for f, s in each('set', 0):
        B.state(R + 'set()', s, this, n, lambda k: TRUE, f)
    for f, s in each('reset', 0):
        B.state(R + 'reset()', s, this, n, lambda k: FALSE, f)
    for f, s in each('flip', 0):
        B.state(R + 'flip()', s, this, n, lambda k: ~bit(k), f)
    for f, s in each('flip', 1):
        B.state(R + 'flip(i)', s, this, n, lambda k: If(k == A0, ~bit(k), bit(k)), f, [A0 < n])
    for f, s in each('clear', 0):
        B.state(R + 'clear()', s, this, 0, lambda k: FALSE, f)
    small = [n <= 40, n >= 0]
    for f, s in each('size', 0):
        ctx.same(R + 'size()', s.ret, n, loc(f))
    for f, s in each('count', 0):
        k = ('ix', 'c')
        ctx.same(R + 'count()', B.rw(s)(s.ret), ('sum', k, ('rng', ZERO, n.t), ite(bit(k).t, ONE, ZERO)), loc(f), small)
    for i, (f, s) in enumerate(each('operator[]', 1)):
        ctx.same(R + 'operator[] #%d' % i, B.rw(s)(s.ret), bit(A0), loc(f), small + [A0 < n, A0 >= 0])
    # element access beyond the storage is refused
    for op, np in (('operator[]', 1), ('set', 2), ('flip', 1)):
        for i, (f, s) in enumerate(each(op, np)):
            acc = [e for e in s.events if e.kind == 'idx' and e.d.get('loc', ('',))[0] == 'f' and e.d['loc'][2] == 'buffer']
            if acc:
                ctx.ob(R + op + ' access beyond the storage throws #%d' % i, all(e.d['how'] == 'at' or mentions(e.guard(), lambda x: x[0] == 'lt') for e in acc), str(acc), loc(f))
    k = ('ix', 'c')
    for f, s in each('operator==', 1):
        if f['params'][0]['t'].get('k') == 'u':
            want = ~X(('pred', 'any', k, ('rng', ZERO, n.t), xor(bit(k), X(tb(A0.t, k))).t))
            ctx.same(R + 'operator==(value)', B.rw(s)(s.ret), want, loc(f), [n <= 24, n >= 0])
        elif f.get('ta') and f['ta'][0].startswith(str(bs)):
            want = (n == A0.num_bits) & ~X(('pred', 'any', k, ('rng', ZERO, n.t), xor(bit(k), rhs(k)).t))
            for sub, ass in (('', [n <= 24, n >= 0]), (' equal sizes', [n == A0.num_bits, n <= 24, n >= 0])):
                ctx.same(R + 'operator==' + sub, B.rw(s)(s.ret), want, loc(f), ass)
        else:
            obs = int(f['ta'][0].split('U')[0])
            B2 = Bits(ctx, obs)

            def rw(t):
                def g(x):
                    if x[0] == 'i' and x[1][0] == 'i' and x[1][1] == A0.buffer.t:
                        return B2.rw(s)(x)
                return B.rw(s)(rewrite(t, g))
            want = (n == A0.num_bits) & ~X(('pred', 'any', k, ('rng', ZERO, n.t), xor(bit(k), rhs(k)).t))
            ctx.same(R + 'operator== other block size', rw(s.ret), want, loc(f), [n == A0.num_bits, n <= 24, n >= 0])
            ctx.same(R + 'operator== other block size, sizes', rw(s.ret), FALSE, loc(f), [n != A0.num_bits, n <= 24, n >= 0])
    for f, s in each('operator!=', 1):
        # negation of the == of the same signature
        g = [h for h in seqs(ctx, cls + '::operator==', 1) if h['params'][0]['t'] == f['params'][0]['t']]
        if g:
            ctx.same(R + 'operator!= ' + str(f.get('ta') or ''), s.ret, not_(truth(ctx.call(g[0]).ret)), loc(f))
    for f, s in each('operator~', 0):
        B.state(R + 'operator~', s, None, n, lambda k: ~bit(k), f)
    sz = [n == A0.num_bits]
    for op, fn_ in (('^', xor), ('&', lambda a, b: a & b), ('|', lambda a, b: a | b)):
        for f, s in each('operator%s=' % op, 1):
            B.state(R + 'operator%s=' % op, s, this, n, lambda k: fn_(bit(k), rhs(k)), f, sz)
            B.state(R + 'operator%s= result' % op, s, None, n, lambda k: fn_(bit(k), rhs(k)), f, sz)
        if bs == 8:
            l = [f for f in ctx.fns_of(r'^DRAMPower::util::operator\%s' % op) if 'dynamic_bitset' in str(f['params'][0]['t'])]
            if not l:
                raise AnalysisBroken('no operator ' + op)
            for f in l[:1]:
                s = ctx.call(f)
                rw0 = B.rw(s)
                a, b = lambda k: B.bit(A0, k), lambda k: B.bit(A1, k)
                kk = S('k')
                p = s.eng.project
                ass = [A0.num_bits == A1.num_bits, A0.num_bits <= 40, kk >= 0, kk < A0.num_bits]
                ctx.same(R + 'operator%s bits' % op, B.at(s, p(s.ret, ('f', 'buffer')), kk), fn_(a(kk), b(kk)), loc(f), ass)
                ctx.same(R + 'operator%s size' % op, p(s.ret, ('f', 'num_bits')), A0.num_bits, loc(f), ass)


def dynamic_bitset(ctx):
    same_dynamic(ctx, 8)
    same_dynamic(ctx, 64)
    return dict(explain='Every operation of dynamic_bitset (block sizes 8 and 64 instantiated from the header) is summarised by value numbering with loop summaries; '
                'each result is compared, as a bit sequence (bit k = buffer[k/bs][k%bs]), with the operation on an abstract sequence of bits, and the class invariant '
                '(block count, zero bits beyond the size, last-block mask) must be re-established.',
                assumptions=['element indices are below size() (the documented precondition)', 'compound operators get operands of equal size (asserted precondition)'], floor=80)


# ------------------------------------------------------------------------------------------------ sub_bitset
def one_sub(ctx, mw):
    cls = U + 'sub_bitset<%d>' % mw
    R = 'sub_bitset<%d> ' % mw
    w = this.width
    k = S('k')
    base = [w <= mw, w >= 0, k >= 0, k < mw, A0 >= 0]

    def rw_(sm):
        eng = sm.eng

        def buf(x):
            return x[0] == 'f' and x[2] == 'buffer'

        def f(x):
            if x[0] == 'i' and x[1][0] == 'f' and x[1][2] == 'mask':
                return X(x[2]) < X(x[1][1]).width
            if x[0] == 'i' and buf(x[1]):
                return has(('bits', x[1][1], x[2])) & (X(x[2]) < X(x[1][1]).width)
            if x[0] == 'eq' and (buf(x[1]) or buf(x[2])):
                j = ('ix', 'j')
                a, b = (truth(eng.project(y, ('i', j))) for y in (x[1], x[2]))
                return not_(rewrite(('pred', 'any', j, ('rng', ZERO, N(mw)), or_(and_(a, not_(b)), and_(not_(a), b))), f))
            if x[0] == 'popcount':
                j = ('ix', 'p')
                return rewrite(('sum', j, ('rng', ZERO, N(mw)), ite(truth(eng.project(x[1], ('i', j))), ONE, ZERO)), f)
        return lambda t: rewrite(t, f)
    bit = lambda o, i: has(('bits', T(o), T(i))) & (X(i) < X(o).width)
    me, rhs = (lambda i: bit(this, i)), (lambda i: bit(A0, i))
    xor = lambda a, b: (a & ~b) | (~a & b)

    def each(op, np, pick=None):
        l = [f for f in seqs(ctx, cls + '::' + op, np) if pick is None or pick(f)]
        if not l:
            raise AnalysisBroken('no %s::%s' % (cls, op))
        for f in l:
            yield f, ctx.call(f)

    def state(key, f, s, obj, w2, b2, ass=()):
        rw = rw_(s)
        p = s.eng.project
        if obj is not None:
            at = lambda q, m: rw(truth(s.get(T(X(('f', T(obj), m))[q]))))
            wd = s.get(T(X(obj).width))
        else:
            at = lambda q, m: rw(truth(p(p(s.ret, ('f', m)), ('i', T(q)))))
            wd = p(s.ret, ('f', 'width'))
        ass = base + list(ass)
        ctx.same(R + key + ': width', rw(wd), w2, loc(f), ass)
        ctx.same(R + key + ': bits', at(k, 'buffer'), b2(k), loc(f), ass + [k < X(w2)], 'bit k, k < width')
        ctx.same(R + key + ': unused bits', at(k, 'buffer'), FALSE, loc(f), ass + [k >= X(w2)], 'bit k, k >= width')
        ctx.same(R + key + ': mask', at(k, 'mask'), k < X(w2), loc(f), ass, 'mask bit k')
    for f, s in each('sub_bitset', 1):
        if f['params'][0]['t'].get('k') == 'u':
            state('constructor(width)', f, s, this, A0, lambda i: FALSE, [A0 <= mw])
            ctx.throws(R + 'constructor(width): refuses too large widths', s, A0 > mw, loc(f), [A0 >= 0])
    for f, s in each('sub_bitset', 2):
        state('constructor(width, value)', f, s, this, A0, lambda i: tb(A1.t, T(i)), [A0 <= mw])
        ctx.throws(R + 'constructor(width, value): refuses too large widths', s, A0 > mw, loc(f), [A0 >= 0])
    for f, s in each('set', 2):
        state('set(i, v)', f, s, this, w, lambda i: If(i == A0, A1 != 0, me(i)), [A0 < w])
        ctx.throws(R + 'set(i, v): refuses indices beyond the width', s, A0 >= w, loc(f), base)
    for f, s in each('set', 0):
        state('set()', f, s, this, w, lambda i: TRUE)
    for f, s in each('reset', 0):
        state('reset()', f, s, this, w, lambda i: FALSE)
    for f, s in each('flip', 0):
        state('flip()', f, s, this, w, lambda i: ~me(i))
    for f, s in each('flip', 1):
        state('flip(i)', f, s, this, w, lambda i: If(i == A0, ~me(i), me(i)), [A0 < w])
        ctx.throws(R + 'flip(i): refuses indices beyond the width', s, A0 >= w, loc(f), base)
    for i, (f, s) in enumerate(each('operator[]', 1)):
        ctx.same(R + 'operator[] #%d' % i, rw_(s)(s.ret), me(A0), loc(f), base + [A0 < w])
        ctx.throws(R + 'operator[] #%d: refuses indices beyond the width' % i, s, A0 >= w, loc(f), base)
    for f, s in each('size', 0):
        ctx.same(R + 'size()', s.ret, w, loc(f))
    j = ('ix', 'c')
    for f, s in each('count', 0):
        ctx.same(R + 'count()', rw_(s)(s.ret), ('sum', j, ('rng', ZERO, w.t), ite(me(j).t, ONE, ZERO)), loc(f), base)
    eqs = {}
    for f, s in each('operator==', 1):
        if f['params'][0]['t'].get('k') == 'u':
            want = ~X(('pred', 'any', j, ('rng', ZERO, w.t), xor(me(j), X(tb(A0.t, j))).t))
            ctx.same(R + 'operator==(value)', rw_(s)(s.ret), want, loc(f), base)
        else:
            want = ~X(('pred', 'any', j, ('rng', ZERO, w.t), xor(me(j), rhs(j)).t))
            ctx.same(R + 'operator== equal widths', rw_(s)(s.ret), want, loc(f), base + [w == A0.width])
            ctx.same(R + 'operator== other width', rw_(s)(s.ret), FALSE, loc(f), base + [w != A0.width])
        eqs[str(f['params'][0]['t'])] = s
    for f, s in each('operator!=', 1):
        g = eqs.get(str(f['params'][0]['t']))
        if g is not None:
            ctx.same(R + 'operator!= is the negation of ==', s.ret, not_(truth(g.ret)), loc(f))
    for f, s in each('operator~', 0):
        state('operator~', f, s, None, w, lambda i: ~me(i))
    for op, fn_ in (('^', xor), ('&', lambda a, b: a & b), ('|', lambda a, b: a | b)):
        if mw == 16:
            for f, s in each('operator%s=' % op, 1):
                state('operator%s=' % op, f, s, this, w, lambda i: fn_(me(i), rhs(i)), [w == A0.width])
                state('operator%s= result' % op, f, s, None, w, lambda i: fn_(me(i), rhs(i)), [w == A0.width])
            l = [f for f in ctx.fns_of(r'^DRAMPower::util::operator\%s' % op) if 'sub_bitset' in str(f['params'][0]['t'])]
            if not l:
                raise AnalysisBroken('no operator ' + op)
            s = ctx.call(l[0])
            p = s.eng.project
            ctx.same(R + 'operator%s bits' % op, rw_(s)(truth(p(p(s.ret, ('f', 'buffer')), ('i', k.t)))), fn_(bit(A0, k), bit(A1, k)), loc(l[0]),
                     [A0.width == A1.width, A0.width <= mw, k >= 0, k < mw])


def sub_bitset(ctx):
    one_sub(ctx, 16)
    one_sub(ctx, 64)
    return dict(explain='Every operation of sub_bitset (capacities 16 and 64) is summarised by value numbering and compared, as a bit sequence of the current width, with '
                'the operation on an abstract sequence; bits beyond the width stay zero, and out-of-range widths and indices are refused by an exception.',
                assumptions=['compound operators get operands of equal width (asserted precondition)'], floor=80)


# ------------------------------------------------------------------------------------------------ transition counts
def binary_ops(ctx):
    B = U + 'BinaryOps::'
    n = 0
    for op, fn_ in (('zero_to_ones', lambda p, q: ~p & q), ('one_to_zeroes', lambda p, q: p & ~q), ('bit_changes', lambda p, q: (p & ~q) | (~p & q))):
        l = [f for f in ctx.fns_of('^' + B + op)]
        if len(l) < 3:
            raise AnalysisBroken('BinaryOps::%s has %d instantiations' % (op, len(l)))
        for f in l:
            s = ctx.call(f)
            j = ('ix', 'p')

            def rw(x):
                if x[0] == 'popcount':
                    return ('sum', j, ('rng', ZERO, N(16)), ite(truth(s.eng.project(x[1], ('i', j))), ONE, ZERO))
            want = ('sum', j, ('rng', ZERO, N(16)), ite(fn_(A0[X(j)] != 0, A1[X(j)] != 0).t, ONE, ZERO))
            ctx.same('%s counts the right transitions (%s)' % (op, f['ta'][0] if f.get('ta') else ''), rewrite(s.ret, rw), want, loc(f))
            ctx.ob('%s has no side effect (%s)' % (op, f.get('ta')), not s.final() and not [e for e in s.events if e.kind in ('mut', 'throw')], str(s.final()), loc(f))
    for f in ctx.fns_of('^' + B + 'popcount'):
        s = ctx.call(f)
        ctx.same('popcount counts the ones (%s)' % f.get('ta'), s.ret, ('popcount', A0.t), loc(f))
    return dict(explain='Each instantiation of the transition counters is summarised; its value must be the population count of ~previous&next, previous&~next and previous^next respectively.', floor=12)


# ------------------------------------------------------------------------------------------------ interval counter
def interval(ctx):
    cls = U + 'interval_counter<unsigned long>'
    nm = cls + '::'
    c, st, en = this.count, this.start, this.end
    opened = has(st) & ~has(en)
    R = 'interval_counter::'

    def one(op, n, ret=None, eff=None, pick=None, assume=()):
        l = [f for f in seqs(ctx, nm + op, n) if pick is None or pick(f)]
        if not l:
            raise AnalysisBroken('no ' + nm + op)
        for f in l:
            s = ctx.call(f)
            if ret is not None:
                ctx.same(R + op + ' result', s.ret, ret, loc(f), assume)
            ctx.effects(R + op, s, eff or {}, loc(f), assume)
            ctx.throws(R + op + ' does not throw', s, FALSE, loc(f))
    one('get_start', 0, If(has(st), val(st), 0))
    one('get_end', 0, If(has(en), val(en), 0))
    one('is_open', 0, opened)
    one('is_closed', 0, has(st) & has(en))
    one('get_count', 0, c)
    one('get_count_at', 1, If(opened & (A0 > val(st)), c + A0 - val(st), c))
    one('add', 1, None, {c: c + A0})
    d = A0 - val(st)
    one('close_interval', 1, If(opened, d, 0), {c: If(opened, c + d, c), en: If(opened, ('some', A0.t), en)})
    one('reset_interval', 0, None, {st: ('none',), en: ('none',)})
    one('start_interval', 1, None, {st: ('some', A0.t), en: ('none',)})
    one('start_interval_if_not_running', 1, None, {st: If(opened, st, ('some', A0.t)), en: If(opened, en, ('none',))})
    one('interval_counter', 1, None, {c: 0, st: ('some', A0.t), en: ('none',)}, pick=lambda f: f['params'][0]['t'].get('k') == 'u')
    # composition: closing never double counts
    return dict(explain='Each member of interval_counter is summarised and compared with the accumulator automaton of the documentation: an interval is counted exactly once, '
                'when it is closed or, while open, up to the queried time.', assumptions=['time stamps do not decrease'], floor=25)
