"""Memory specifications: what the constructors take from the description, and the copies the cores and interfaces keep."""
from core import *
from spec import *
import random

D = 'DRAMPower::'
sp = S('spec')
ar, tm, pw = sp.memarchitecturespec, sp.memtimingspec, sp.mempowerspec
STD = ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')
DOM = {'DDR4': dict(VDD=('vdd', 'd', ''), VPP=('vpp', 'p', '')), 'DDR5': dict(VDD=('vdd', 'd', ''), VPP=('vpp', 'p', '')),
       'LPDDR4': dict(VDD1=('vdd1', '1'), VDD2=('vdd2', '2')), 'LPDDR5': dict(VDD1=('vdd1', '1'), VDD2H=('vdd2h', '2h'), VDD2L=('vdd2l', '2l')),
       'LPDDR6': dict(VDD1=('vdd1', '1'), VDD2C=('vdd2c', '2c'), VDD2D=('vdd2d', '2d'))}


def div(a, b):
    return X(idiv(T(X(a)), T(X(b))))


def opt(o, d):
    o = X(o)
    return If(has(o), val(o), d)


def required(ctx, std):
    """member path -> term over the description"""
    from rules.command import enumerators
    lp = std.startswith('LP')
    r = {}
    for a, b in (('numberOfBanks', 'nbrOfBanks'), ('numberOfRows', 'nbrOfRows'), ('numberOfColumns', 'nbrOfColumns'), ('burstLength', 'burstLength'),
                 ('dataRate', 'dataRate'), ('bitWidth', 'width'), ('numberOfBankGroups', 'nbrOfBankGroups'), ('numberOfRanks', 'nbrOfRanks')):
        r[a] = getattr(ar, b)
    r['numberOfDevices'] = If(ar.nbrOfDevices < 1, 1, ar.nbrOfDevices)
    r['memoryId'] = sp.memoryId
    r['vddq'] = pw.vddq
    r['memImpedanceSpec'] = sp.memimpedancespec
    r['bwParams.bwPowerFactRho'] = If(has(sp.bankwisespec), opt(val(sp.bankwisespec).factRho, 1), 1)
    t = dict(tCK='tCK', tRAS='RAS', tWL='WL', tWR='WR', tRP='RPpb' if lp else 'RP')
    if std == 'DDR4':
        t.update(tRCD='RCD', tRTP='RTP', tAL='AL')
    if std == 'DDR5':
        t.update(tRCD='RCD', tRTP='RTP', tRFCsb='RFCsb_slr')
    if std == 'LPDDR4':
        t.update(tRCD='RCD', tRTP='RTP', tRL='RL', tRFC='RFCab', tRFCPB='RFCpb', tREFI='REFI')
    if std == 'LPDDR5':
        t.update(tRCD='RCD_S', tRBTP='RBTP', tRFC='RFCab', tRFCPB='RFCpb', tREFI='REFI', WCKtoCK='WCK2CK')
    if std == 'LPDDR6':
        t.update(tRCDR='RCD_r', tRCDW='RCD_w', tRBTP='RBTP', tRFCAB='RFCab', tRFCDB='RFCdb', tREFI='REFI', WCKtoCK='WCK2CK')
    for a, b in t.items():
        r['memTimingSpec.' + a] = getattr(tm, b)
    burst = div(ar.burstLength, ar.dataRate)
    if std == 'DDR4':
        r['prechargeOffsetRD'] = tm.AL + tm.RTP
        r['prechargeOffsetWR'] = burst + tm.WL + tm.WR
        for n in ('zeroes', 'ones', 'zeroes_to_ones', 'ones_to_zeroes', 'MinTccd'):
            for w in ('read', 'write'):
                k = w + ('' if n == 'MinTccd' else '_') + n
                r['prePostamble.' + k] = getattr(sp.prepostamble, k)
    if std == 'DDR5':
        r['prechargeOffsetRD'] = tm.RTP
        r['prechargeOffsetWR'] = burst + tm.WL + tm.WR
        r['banksPerGroup'] = div(ar.nbrOfBanks, ar.nbrOfBankGroups)
        for a, b in (('commandBusRate', 'ca_bus_rate'), ('dataBusRate', 'dq_bus_rate'), ('dqsBusRate', 'dqs_bus_rate')):
            r['dataRateSpec.' + a] = If(has(sp.dataratespec), getattr(val(sp.dataratespec), b), 2)
    if std == 'LPDDR4':
        r['prechargeOffsetRD'] = tm.RTP + If(ar.burstLength == 16, 0, 8)
        r['prechargeOffsetWR'] = tm.WL + div(ar.burstLength, 2) + tm.WR + 1
    if std in ('LPDDR5', 'LPDDR6'):
        burst = div(ar.burstLength, ar.dataRate * tm.WCK2CK)
        r['memTimingSpec.tWCK'] = tm.tCK / tm.WCK2CK
        r['prechargeOffsetRD'] = burst + tm.RBTP
        r['prechargeOffsetWR'] = tm.WL + burst + 1 + tm.WR
        r['wckAlwaysOnMode'] = ar.WCKalwaysOn
    if std == 'LPDDR5':
        r['perTwoBankOffset'] = X(N(8))
        a = {n: X(('enum', D + 'MemSpecLPDDR5::BankArchitectureMode::' + n, v)) for n, v in enumerators(ctx, D + 'MemSpecLPDDR5::BankArchitectureMode')}
        B, G = ar.nbrOfBanks, ar.nbrOfBankGroups
        r['bank_arch'] = If(conj([B == 16, G == 4]), a['MBG'], If(conj([B == 8, G <= 1]), a['M8B'], a['M16B']))
        ok = X(or_(T(conj([B == 16, X(or_(T(G <= 1), T(G == 4)))])), T(conj([B == 8, G <= 1]))))
        r['numberOfBanks'] = If(ok, B, 16)
        r['numberOfBankGroups'] = If(ok, G, 1)
    dv = dict(enumerators(ctx, D + 'MemSpec%s::VoltageDomain' % std))
    for n, x in DOM[std].items():
        p = 'memPowerSpec.%d.' % dv[n]
        P = lambda s: getattr(pw, s)
        if lp:
            s = x[1]
            m = dict(vDDX=x[0], iDD0X='idd0' + s, iDD2NX='idd2n' + s, iDD3NX='idd3n' + s, iDD4RX='idd4r' + s, iDD4WX='idd4w' + s, iDD5X='idd5' + s,
                     iDD6X='idd6' + s, iDD2PX='idd2p' + s, iDD3PX='idd3p' + s)
            if std == 'LPDDR6':
                m['iDD5PDBX'] = 'idd5pdb' + s
            else:
                m['iDD5PBX'] = 'idd5pb' + s
            if std != 'LPDDR4':
                m['iDD6DSX'] = 'idd6ds' + s
            r[p + 'iBeta'] = opt(P('iBeta_' + x[0]), P('idd0' + s))
        else:
            c = 'i%s' % ('dd' if x[1] == 'd' else 'pp')
            m = dict(vXX=x[0], iXX0=c + '0', iXX2N=c + '2n', iXX3N=c + '3n', iXX4R=c + '4r', iXX4W=c + '4w', iXX6N=c + '6n', iXX2P=c + '2p', iXX3P=c + '3p')
            if std == 'DDR5':
                m['iXX5C'] = c + '5c'
            r[p + 'iBeta'] = opt(P('iBeta_' + x[0]), P(c + '0'))
        for a, b in m.items():
            r[p + a] = P(b)
    if not lp:
        md = {n: X(('enum', 'DRAMUtils::MemSpec::RefModeType%s::%s' % (std, n), v)) for n, v in enumerators(ctx, 'DRAMUtils::MemSpec::RefModeType' + std)}
        R = ar.RefMode
        if std == 'DDR4':
            pick = lambda o, a, b, c: If(R == md['REF_MODE_2'], getattr(o, a), If(R == md['REF_MODE_4'], getattr(o, b), getattr(o, c)))
            r['memTimingSpec.tRFC'] = pick(tm, 'RFC2', 'RFC4', 'RFC1')
            for d, c in (('VDD', 'idd'), ('VPP', 'ipp')):
                r['memPowerSpec.%d.iXX5X' % dv[d]] = pick(pw, c + '5F2', c + '5F4', c + '5B')
        else:
            pick = lambda o, a, b: If(R == md['REF_MODE_2'], getattr(o, a), getattr(o, b))
            r['memTimingSpec.tRFC'] = pick(tm, 'RFC2_slr', 'RFC1_slr')
            for d, c in (('VDD', 'idd'), ('VPP', 'ipp')):
                r['memPowerSpec.%d.iXX5X' % dv[d]] = pick(pw, c + '5f', c + '5b')
    return r


def member(p):
    x = this
    for n in p.split('.'):
        x = x[X(N(int(n)))] if n.isdigit() else getattr(x, n)
    return T(x)


TIMES = ('tRFC', 'tRFCsb', 'tRFCPB', 'tRFCAB', 'tRFCDB', 'tRAS', 'tRCD', 'tRCDR', 'tRCDW', 'tRP')
ARCH = ('numberOfBanks', 'numberOfRanks', 'banksPerGroup', 'numberOfBankGroups', 'prechargeOffsetRD', 'prechargeOffsetWR', 'bank_arch', 'perTwoBankOffset',
        'burstLength', 'dataRate', 'bitWidth', 'numberOfDevices', 'wckAlwaysOnMode')


def memspec(ctx):
    for std in STD:
        with ctx.guard(std + ' memory specification'):
            one(ctx, std)
        with ctx.guard(std + ' core copy'):
            copies(ctx, std)
    return dict(explain='the constructor of each memory specification is summarised; each member the simulation uses must be the required function of the description (architecture, timings, currents and voltages per domain, refresh mode, defaults of optional values). The members the core and interface keep of it must be copies of the member of the same name.',
                assumptions=['clock ratio, data rate and number of bank groups are not zero (except LPDDR5, where no bank groups are accepted)'], floor=150)


def one(ctx, std):
    q = D + 'MemSpec%s::MemSpec%s' % (std, std)
    fn = [f for f in ctx.byq.get(q, []) if len(f['params']) == 1 and f['params'][0]['t'].get('t', '').startswith('DRAMUtils')]
    if not fn:
        raise AnalysisBroken('constructor not found: ' + q)
    fn = fn[0]
    sm = ctx.run(fn, [('s', 'spec')], ('s', 'this'))
    as_ = [T(X(x) != 0) for x in (ar.dataRate, tm.WCK2CK, ar.nbrOfBankGroups)]
    for p, w in required(ctx, std).items():
        ctx.same('%s %s' % (std, p), sm.get(member(p)), w, loc(fn), [] if std == 'LPDDR5' and 'ank' in p else as_, p)
    if std == 'LPDDR5':
        # accepted without bank groups: nothing divides by their number then
        rnd = random.Random(ctx.seed)
        bad = None
        for n in (8, 16):
            for k in ('numberOfBanks', 'numberOfBankGroups', 'banksPerGroup', 'bank_arch'):
                t = sm.get(member(k))
                if T(ar.nbrOfBankGroups) in set(walk(t)):
                    m = subst(subst(t, {T(ar.nbrOfBankGroups): ZERO}), {T(ar.nbrOfBanks): N(n)})
                    if any(x[0] == 'idiv' and x[2] == ZERO for x in walk(m)):
                        bad = '%s divides by the number of bank groups' % k
        ctx.ob('LPDDR5 without bank groups', bad is None, bad or '', loc(fn))


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from walk(x)


def copies(ctx, std):
    for suffix in ('CoreMemSpec', 'InterfaceMemSpec'):
        cls = D + std + suffix
        if cls not in ctx.F.records:
            continue
        fn = [f for f in ctx.byq.get(cls + '::' + std + suffix, []) if len(f['params']) == 1 and 'MemSpec' + std in f['params'][0]['t'].get('t', '') and not 'Core' in f['params'][0]['t'].get('t', '') and 'Interface' not in f['params'][0]['t'].get('t', '')]
        if not fn:
            continue
        sm = ctx.run(fn[0], [('s', 'spec')], ('s', 'this'))
        for f in ctx.rec(cls)['fields']:
            n = f['n']
            want = sp.memTimingSpec if n in TIMES else sp if n in ARCH else None
            if want is None:
                continue
            ctx.same('%s %s.%s' % (std, suffix, n), sm.get(T(getattr(this, n))), getattr(want, n), loc(fn[0]), (), n)
