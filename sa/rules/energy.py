"""Energy formulas: core energies of the five standards."""
from core import *
from spec import *
from effects import Fold, Opaque, pre
import random
from fractions import Fraction

D = 'DRAMPower::'
B_ = this.m_memSpec.numberOfBanks
NR, ND = this.m_memSpec.numberOfRanks, this.m_memSpec.numberOfDevices
ms = this.m_memSpec
ts = ms.memTimingSpec
st = S('stats')
DOMAINS = {'DDR4': ('VDD', 'VPP'), 'DDR5': ('VDD', 'VPP'), 'LPDDR4': ('VDD1', 'VDD2'), 'LPDDR5': ('VDD1', 'VDD2H', 'VDD2L'), 'LPDDR6': ('VDD1', 'VDD2C', 'VDD2D')}
BANKF = ('E_act', 'E_pre', 'E_bg_act', 'E_bg_pre', 'E_RD', 'E_WR', 'E_RDA', 'E_WRA', 'E_pre_RDA', 'E_pre_WRA', 'E_ref_AB', 'E_ref_PB', 'E_ref_SB', 'E_ref_2B', 'E_ref_DB')
SHARED = ('E_bg_act_shared', 'E_PDNA', 'E_PDNP', 'E_sref', 'E_dsm', 'E_refab')


def core_required(std, vd, r, b, mbg):
    """energies a bank (per bank) and a rank (shared) adds in one voltage domain: name -> term.
    r, b: rank and bank terms; mbg: bank group mode"""
    lp = std.startswith('LP')
    p = ms.memPowerSpec[X(vd)]
    V = p.vDDX if lp else p.vXX
    I = lambda a, z: getattr(p, ('iDD%sX' % a) if lp else 'iXX' + z)
    I0, I2N, I3N, I2P, I3P, I4R, I4W = (I(a, z) for a, z in (('0', '0'), ('2N', '2N'), ('3N', '3N'), ('2P', '2P'), ('3P', '3P'), ('4R', '4R'), ('4W', '4W')))
    I6, I5 = I('6', '6N'), I('5', '5X')
    tck = ts.tCK
    tRAS, tRP = ts.tRAS * tck, ts.tRP * tck
    rho = ms.bwParams.bwPowerFactRho
    BL, DR = ms.burstLength, ms.dataRate
    bk, rk = st.bank[r * B_ + b], st.rank_total[r]
    n = bk.counter
    # current of one precharged-to-active bank (I_1) and of the shared part (I_rho)
    if lp:
        Ione = I3N
        Irho = (rho * B_ * I3N + (1 - rho) * I2N) / (rho * B_ + (1 - rho))
        Iall = Irho + B_ * (Ione - Irho)
        Itwo = Ione + (Ione - Irho)
    else:
        Irho = rho * (I3N - I2N) + I2N
        Ione = (I3N + (B_ - 1) * Irho) / B_
        Iall = I3N
    Ith = (I0 * (tRP + tRAS) - p.iBeta * tRP) / tRAS
    burst = BL / DR * (ts.tWCK if std in ('LPDDR5', 'LPDDR6') else tck)
    Irw = Iall if not lp else (Ione if std == 'LPDDR4' or std == 'LPDDR5' and not mbg else Itwo)
    epre = V * (p.iBeta - I2N) * tRP
    bank = dict(
        E_act=V * (Ith - Ione) * tRAS * n.act, E_pre=epre * n.pre, E_pre_RDA=epre * n.readAuto, E_pre_WRA=epre * n.writeAuto,
        E_bg_act=V * (Ione - Irho) * bk.cycles.act * tck, E_bg_pre=V * I2N * rk.cycles.pre * tck / B_,
        E_RD=V * (I4R - Irw) * burst * n.reads, E_RDA=V * (I4R - Irw) * burst * n.readAuto,
        E_WR=V * (I4W - Irw) * burst * n.writes, E_WRA=V * (I4W - Irw) * burst * n.writeAuto)
    trfc = (ts.tRFCAB if std == 'LPDDR6' else ts.tRFC) * tck
    bank['E_ref_AB'] = V * (I5 - Iall) * trfc * n.refAllBank / B_

    def perbank(i5, t):
        # share of the refresh current during one of the eight refreshes of a refresh interval
        q = ts.tREFI * tck / 8
        return (i5 * q - I2N * (q - t)) / t
    if std == 'DDR5':
        G = ms.numberOfBankGroups
        bank['E_ref_SB'] = V * (p.iXX5C - (Irho + (Ione - Irho) * G)) * ts.tRFCsb * tck * n.refSameBank / G
    if std in ('LPDDR4', 'LPDDR5'):
        t = ts.tRFCPB * tck
        bank['E_ref_PB'] = V * (perbank(p.iDD5PBX, t) - Ione) * t * n.refPerBank
        if std == 'LPDDR5':
            bank['E_ref_2B'] = V * (perbank(p.iDD5PBX, t) - Itwo) * t * n.refPerTwoBanks / 2
    if std == 'LPDDR6':
        t = ts.tRFCDB * tck
        bank['E_ref_DB'] = V * (perbank(p.iDD5PDBX, t) - Itwo) * t * n.refDualBanks / 2
    shared = dict(E_bg_act_shared=V * Irho * rk.cycles.act * tck * ND, E_PDNA=V * I3P * rk.cycles.powerDownAct * tck * ND,
                  E_PDNP=V * I2P * rk.cycles.powerDownPre * tck * ND, E_sref=V * I6 * rk.cycles.selfRefresh * tck * ND)
    if std in ('LPDDR5', 'LPDDR6'):
        shared['E_dsm'] = V * p.iDD6DSX * rk.cycles.deepSleepMode * tck * ND
    return bank, shared


def valuation(rnd, std, arch, fixed):
    f = dict(fixed)

    def put(x, v):
        f[T(x)] = v
    put(NR, rnd.choice((1, 2, 2, 3)))
    put(ND, rnd.choice((1, 2, 2, 3)))
    put(B_, rnd.choice((1, 2, 4, 5)))
    dr = rnd.choice((1, 2, 4))
    put(ms.dataRate, dr)
    put(ms.burstLength, dr * rnd.randint(1, 16))
    put(ms.numberOfBankGroups, rnd.randint(1, 8))
    for n in ('tCK', 'tWCK', 'tRAS', 'tRP', 'tRFC', 'tRFCAB', 'tRFCPB', 'tRFCDB', 'tRFCsb', 'tREFI'):
        put(getattr(ts, n), rnd.randint(1, 400))
    put(ms.bwParams.bwPowerFactRho, Fraction(rnd.randint(0, 16), 16))
    if arch:
        put(ms.bank_arch, rnd.choice([v for _, v in arch]))
    return f


def roots_of(events, member):
    """local objects written through member[...]"""
    roots = set()
    for e in events:
        l, path = e.d['loc'], []
        while l[0] in ('f', 'i'):
            path.append(l)
            l = l[1]
        if l[0] == 'v' and any(x[0] == 'i' and x[1][0] == 'f' and x[1][2] == member for x in path):
            roots.add(l)
    return roots


def core_energy(ctx):
    for std in DOMAINS:
        with ctx.guard(std + ' core energy'):
            one(ctx, std)
    return dict(explain='calcEnergy of each standard is summarised into its ordered write effects on the result (with loops and conditions); folded over the loops under random valuations of all inputs, the value of every part of every bank of every device of every rank, and of every shared part, must equal the required formula summed over the voltage domains of the standard',
                assumptions=['the burst length is a multiple of the data rate', 'exact arithmetic (rounding is not considered)'], floor=70)


def one(ctx, std):
    from rules.command import enumerators
    fn = ctx.fn(D + 'Calculation_%s::calcEnergy' % std)
    sm = ctx.run(fn, [('s', 'stats')], ('s', 'this'), alias=False, unroll=0, evlocal=True)
    where = loc(fn)
    doms = dict(enumerators(ctx, D + 'MemSpec%s::VoltageDomain' % std))
    arch = enumerators(ctx, D + 'MemSpecLPDDR5::BankArchitectureMode') if std == 'LPDDR5' else None
    ev = [e for e in sm.events if e.kind == 'write' and e.d['loc'][0] != 'v']
    roots = roots_of(ev, 'bank_energy')
    size = sm.eng.size(sm.eng.project(sm.ret, ('f', 'bank_energy')))
    ctx.same(std + ' one entry per bank of every device', strip(size), B_ * NR * ND, where, (), 'number of bank entries')
    key0 = std + ' '
    if len(roots) != 1:
        ctx.ob(key0 + 'core energy', None, 'result object not identified: %d candidates' % len(roots), where)
        return
    root = roots.pop()
    required = {}
    Rr, Bb = S('#r'), S('#b')
    for n, v in doms.items():
        if n not in DOMAINS[std]:
            continue        # supply of the interface
        for mbg in (True, False):
            required[n, mbg] = core_required(std, ('enum', '%sMemSpec%s::VoltageDomain::%s' % (D, std, n), v), Rr, Bb, mbg)
    rnd = random.Random(ctx.seed)
    bad, und = {}, None
    rounds = 0
    while rounds < 8:
        fixed = valuation(rnd, std, arch, {})
        seed = rnd.getrandbits(60)
        try:
            f = Fold(ev, seed, fixed, {root})
        except Opaque as x:
            und = str(x)
            break
        except (ri.Skip, OverflowError, ValueError, ZeroDivisionError, RecursionError, TypeError) as x:
            und = 'not evaluable: %r' % (x,)
            break
        rounds += 1
        got = {}
        for k, v in f.mem.items():
            if pre(root, k):
                got[k] = v
        nr, nd, nb = fixed[T(NR)], fixed[T(ND)], fixed[T(B_)]
        mbg = not arch or fixed[T(ms.bank_arch)] == dict(arch)['MBG']
        want = {}
        for n in DOMAINS[std]:
            bank, shared = required[n, mbg]
            for r in range(nr):
                for b in range(nb):
                    f.v.fixed[T(Rr)], f.v.fixed[T(Bb)] = r, b
                    f.v.memo = {}
                    for d in range(nd):
                        for q, t in bank.items():
                            k = ('f', ('i', ('f', root, 'bank_energy'), (r * nd + d) * nb + b), q)
                            want[k] = want.get(k, 0) + f.v.num(t.t, ())
                f.v.fixed[T(Rr)], f.v.fixed[T(Bb)] = r, 0
                f.v.memo = {}
                for q, t in shared.items():
                    k = ('f', root, q)
                    want[k] = want.get(k, 0) + f.v.num(t.t, ())
        for k in set(got) | set(want):
            if got.get(k, 0) != want.get(k, 0):
                q = k[2] if k[0] == 'f' else '?'
                bad.setdefault(q, 'ranks=%d devices=%d banks=%d%s: %s is %s, required %s' % (
                    nr, nd, nb, ', entry %d' % k[1][2] if k[1][0] == 'i' else '', q, float(got.get(k, 0)), float(want.get(k, 0))))
    for q in BANKF + SHARED:
        if und is not None:
            ctx.ob(key0 + q, None, und, where)
        else:
            ctx.ob(key0 + q, q not in bad, bad.get(q, ''), where)
    for q in bad:
        if q not in BANKF + SHARED:
            ctx.ob(key0 + q, False, bad[q], where)


def strip(t):
    return t


# ------------------------------------------------------------------------------------------------ interface energy
# lines: statistics, name of the line in the impedance table, data rate (None: that of the data bus), clock, side
def lines(std):
    two, one_, data = X(N(2)), X(N(1)), None
    out = [('clockStats', 'ck', two, 'tCK', 'controller'), ('commandBus', 'ca', two if std in ('LPDDR5', 'LPDDR6') else one_, 'tCK', 'controller'),
           ('readDQSStats', 'rdqs', data, 'tCK', 'dram')]
    if std in ('LPDDR5', 'LPDDR6'):
        out.append(('wClockStats', 'wck', two, 'tWCK', 'controller'))
    else:
        out.append(('writeDQSStats', 'wdqs', data, 'tCK', 'controller'))
    for s in ('', 'togglingStats.'):
        out += [(s + ('read' if s else 'readBus'), 'rdq', data, 'tCK', 'dram'), (s + ('write' if s else 'writeBus'), 'wdq', data, 'tCK', 'controller')]
    if std in ('DDR4', 'LPDDR4', 'LPDDR5'):
        out += [('readDBI', 'rdbi', data, 'tCK', 'dram'), ('writeDBI', 'wdbi', data, 'tCK', 'controller')]
    return out


def iface_required(std):
    sp = S('spec')
    imp = sp.memImpedanceSpec
    lp = std.startswith('LP')
    out = {(side, k): X(ZERO) for side in ('controller', 'dram') for k in ('dynamicEnergy', 'staticEnergy')}

    def power(n):
        return sp.vddq * sp.vddq / getattr(imp, n + '_R_eq')
    for name, n, rate, clk, side in lines(std):
        s_ = st
        for x in name.split('.'):
            s_ = getattr(s_, x)
        if rate is None:
            rate = sp.dataRateSpec.dqsBusRate if std == 'DDR5' and n.endswith('dqs') else sp.dataRate
        out[side, 'dynamicEnergy'] += s_.zeroes_to_ones * getattr(imp, n + '_dyn_E')
        out[side, 'staticEnergy'] += If(getattr(imp, n + '_termination'), (s_.ones if lp else s_.zeroes) * power(n) * getattr(sp.memTimingSpec, clk) / rate, 0)
    if std == 'DDR4':
        for w, n, side in (('read', 'rdqs', 'dram'), ('write', 'wdqs', 'controller')):
            ix = ('ix', 0)
            rk = st.rank_total[X(ix)]
            n_ = X(('sum', ix, ('rng', ZERO, ('size', T(st.rank_total))), T(getattr(rk.counter, w + 's') + getattr(rk.counter, w + 'Auto') - getattr(rk.prepos, w + 'Seamless'))))
            pairs = If(sp.bitWidth == 16, 2, 1)
            t = getattr(imp, n + '_termination')
            out[side, 'dynamicEnergy'] += If(t, pairs * getattr(sp.prePostamble, w + '_zeroes_to_ones') * n_ * getattr(imp, n + '_dyn_E'), 0)
            out[side, 'staticEnergy'] += If(t, pairs * getattr(sp.prePostamble, w + '_zeroes') * n_ * power(n) * sp.memTimingSpec.tCK, 0)
    return out


def flags(t):
    """the termination switches are truth values"""
    def f(x):
        if x[0] == 'eq':
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if a[0] == 'f' and isinstance(a[2], str) and a[2].endswith('_termination') and num(b) in (0, 1):
                    return truth(a) if num(b) == 1 else not_(truth(a))
    return rewrite(t, f)


def interface_energy(ctx):
    c = ctx
    for std in DOMAINS:
        q = D + 'InterfaceCalculation_' + std
        fn = c.fn(q + '::calculateEnergy')
        ctor = [f for f in c.byq.get(q + '::InterfaceCalculation_' + std, []) if len(f['params']) == 1 and 'MemSpec' in f['params'][0]['t'].get('t', '')]
        if not c.ob(std + ' interface calculator', True if len(ctor) == 1 else None, '%d constructors' % len(ctor), loc(fn)):
            continue
        cs = c.run(ctor[0], [('s', 'spec')], ('s', 'this'))
        m = {k: v for k, v in cs.final().items() if k[0] == 'f' and k[1] == ('s', 'this')}
        sm = c.run(fn, [('s', 'stats')], ('s', 'this'))
        rw = lambda t: flags(subst(t, m))
        for (side, k), want in iface_required(std).items():
            got = rw(sm.eng.project(sm.eng.project(sm.ret, ('f', side)), ('f', k)))
            c.same('%s %s %s' % (std, side, k), got, flags(T(want)), loc(fn), (), 'energy')
        c.effects(std + ' energy calculation', sm, {}, loc(fn))
    return dict(explain='calculateEnergy of each standard is summarised with the members replaced by what the constructor stores in them; the four results (controller/DRAM, dynamic/static) must be the sum over all lines of the standard',
                assumptions=['equivalent resistances and data rates are not zero', 'exact arithmetic (rounding is not considered)'], floor=18)
