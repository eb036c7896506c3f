"""Commands, command patterns, encoders, pattern handler, router, implicit command queue."""
from core import *
import re
from spec import *
from .values import seqs

D = 'DRAMPower::'
LAST = 'DRAMPower::PatternEncoderBitSpec::'


def enumerators(ctx, q):
    e = ctx.F.enums.get(q)
    if not e:
        raise AnalysisBroken('enum not found: ' + q)
    return [(x['n'], x['v']) for x in e['e']]


def cmd(n, v):
    return X(('enum', D + 'CmdType::' + n, v))


# ------------------------------------------------------------------------------------------------ command names
NAMES = ['NOP', 'RD', 'WR', 'RDA', 'WRA', 'ACT', 'PRE', 'REFB', 'REFP2B', 'REFDB', 'PRESB', 'REFSB', 'PREA', 'REFA', 'PDEA', 'PDEP', 'PDXA', 'PDXP', 'SREFEN', 'SREFEX', 'DSMEN', 'DSMEX']


def cmdtype(ctx):
    es = enumerators(ctx, D + 'CmdType')
    U = D + 'CmdTypeUtil::'
    nd, fs, ts = ctx.fn(U + 'needs_data'), ctx.fn(U + 'from_string'), ctx.fn(U + 'to_string')
    names = {}
    for n, v in es:
        c = cmd(n, v)
        ctx.same('needs_data(%s)' % n, ctx.run(nd, [c.t]).ret, n in ('RD', 'RDA', 'WR', 'WRA'), loc(nd))
        if n == 'COUNT':
            continue
        s = ctx.run(ts, [c.t]).ret
        if n in NAMES:
            ctx.same('to_string(%s)' % n, s, ('str', n), loc(ts), what='name of the command')
        if s[0] != 'str':
            ctx.ob('to_string(%s) is a name' % n, None, show(s)[:200], loc(ts))
            continue
        ctx.ob('name %s is not used twice' % s[1], s[1] not in names, 'commands %s and %s' % (n, names.get(s[1])), loc(ts))
        names[s[1]] = n
        ctx.same('from_string(to_string(%s))' % n, ctx.run(fs, [s]).ret, c, loc(fs), what='command of the name')
    val = dict(es)
    for n in NAMES:
        if n in val:
            ctx.same('from_string("%s")' % n, ctx.run(fs, [('str', n)]).ret, cmd(n, val[n]), loc(fs))
    ctx.same('from_string("END")', ctx.run(fs, [('str', 'END')]).ret, cmd('END_OF_SIMULATION', val['END_OF_SIMULATION']), loc(fs))
    known = set(NAMES) | set(names) | {'END'}
    near = ['', 'act', 'RD ', 'XYZ', 'RDAA', 'COUNT', 'R', 'PREAB', 'nop', 'REFPB', 'SREF']
    for n in sorted(known):
        # every name with something missing, added or changed
        near += [n + 'X', n + ' ', ' ' + n, n[:-1], n[1:], n.lower(), n.capitalize(), n[:-1] + 'Z', n + n]
    for bad in dict.fromkeys(x for x in near if x not in known):
        ctx.same('from_string("%s")' % bad, ctx.run(fs, [('str', bad)]).ret, cmd('NOP', val['NOP']), loc(fs))
    return dict(explain='needs_data, to_string and from_string are evaluated symbolically for every enumerator of the command type and for a list of strings that are no command names; the tables must be inverse to each other and to_string injective.',
                assumptions=['string comparison is std::string_view equality'], floor=90)


# ------------------------------------------------------------------------------------------------ command values
def command_values(ctx):
    T_, L = D + 'TargetCoordinate', D + 'LPDDR6TargetCoordinate'
    order = ['bank', 'bankGroup', 'rank', 'row', 'column']
    nop = cmd('NOP', dict(enumerators(ctx, D + 'CmdType'))['NOP'])

    def fields(key, fn, want, thisname='this'):
        sm = ctx.call(fn)
        for k, w in want.items():
            ctx.same('%s: %s' % (key, k), sm.get(T(getattr(this, k))), w, loc(fn), what='field ' + k)

    for n in (3, 4, 5):
        for f in seqs(ctx, T_ + '::TargetCoordinate', n):
            w = {k: (X(('s', 'a%d' % i)) if i < n else X(0)) for i, k in enumerate(order)}
            fields('TargetCoordinate/%d' % n, f, w)
    for f in seqs(ctx, D + 'Command::Command', 5):
        fields('Command', f, {'timestamp': A0, 'type': A1, 'targetCoordinate': A2, 'data': A3, 'sz_bits': A4})
    for f in seqs(ctx, L + '::LPDDR6TargetCoordinate', 1):
        fields('LPDDR6TargetCoordinate(TargetCoordinate)', f, {'bank': A0.bank, 'dbank': (A0.bank + 8) % 16, 'bankGroup': A0.bankGroup, 'rank': A0.rank, 'row': A0.row, 'column': A0.column, 'subChannel': X(0)})
    for f in seqs(ctx, D + 'LPDDR6Command::LPDDR6Command', 5):
        fields('LPDDR6Command', f, {'timestamp': A0, 'type': A1, 'targetCoordinate': A2, 'data': A3, 'sz_bits': A4})
    for f in seqs(ctx, D + 'LPDDR6Command::LPDDR6Command', 1):
        sm = ctx.call(f)
        tc = A0.targetCoordinate
        w = {'timestamp': A0.timestamp, 'type': A0.type, 'data': A0.data, 'sz_bits': A0.sz_bits}
        for k, v in w.items():
            ctx.same('LPDDR6Command(Command): ' + k, sm.get(T(getattr(this, k))), v, loc(f))
        t = this.targetCoordinate
        for k in order:
            ctx.same('LPDDR6Command(Command): ' + k, sm.get(T(getattr(t, k))), getattr(tc, k), loc(f))
        ctx.same('LPDDR6Command(Command): dbank', sm.get(T(t.dbank)), (tc.bank + 8) % 16, loc(f))
        ctx.same('LPDDR6Command(Command): subChannel', sm.get(T(t.subChannel)), 0, loc(f))
    # defaults: construct by the implicit default constructor
    for q, w in ((T_, {k: X(0) for k in order}), (D + 'Command', {'timestamp': X(0), 'type': nop, 'sz_bits': X(0)}),
                 (L, dict({k: X(0) for k in order}, dbank=X(8), subChannel=X(0))), (D + 'LPDDR6Command', {'timestamp': X(0), 'type': nop, 'sz_bits': X(0)})):
        r = ctx.rec(q)
        v = default_value(ctx, q)
        for k, x in w.items():
            g = v(k)
            if g == ('undef',):
                ctx.ob('%s() %s' % (q, k), False, 'member %s is left indeterminate by the default constructor' % k, '%s %s' % (r['file'], q))
            else:
                ctx.same('%s() %s' % (q, k), g, x, '%s %s' % (r['file'], q))
    return dict(explain='every constructor of the command and coordinate types is summarised; each field must receive exactly the corresponding argument, unspecified coordinates zero, the second LPDDR6 dual bank (bank + 8) mod 16, and no member may stay indeterminate after default construction.',
                assumptions=[], floor=60)


def default_value(ctx, q):
    """values of the members after default construction"""
    from engine import Engine, State
    r = ctx.rec(q)
    short = q.split('::')[-1]
    user = [f for f in ctx.byq.get(q + '::' + short, []) if not f['params'] and not f['defaulted'] and not f['implicit']]
    if user:
        sm = ctx.call(user[0])
        return lambda k: sm.get(T(getattr(this, k))) if T(getattr(this, k)) in sm.final() else ('undef',)
    fs = {f['n']: f for f in r['fields']}

    def get(k):
        if k not in fs:
            return ('undef',)
        i = fs[k].get('init')
        if i is None or i.get('k') == 'none':
            return ('undef',)
        return Engine(ctx.F).ev(i, State())
    return get


# ------------------------------------------------------------------------------------------------ encoders
def bit_at(ctx, sm, pos):
    return bit_of(sm, sm.ret, T(pos))


def bit_of(sm, t, pos):
    if t[0] == 'toint':
        return truth(sm.eng.project(t[1], ('i', pos)))
    if t[0] == 'ite':
        return ite(t[1], bit_of(sm, t[2], pos), bit_of(sm, t[3], pos))
    return tb(t, pos)


def encode_common(ctx, fn, q, table, tag, extra=None, assume=(), k=None):
    """table: enumerator name -> wanted bit (function of the position) or None"""
    es = enumerators(ctx, q)
    sm = ctx.call(fn)
    k = S('k') if k is None else X(k)
    n = X(('size', T(A1)))
    pos = n - 1 - k
    ass = [k >= 0, n > k, n <= 63] + list(assume)
    got = bit_at(ctx, sm, pos)
    elem = T(A1[k])
    seen = set()
    for name, v in es:
        if name not in table:
            continue
        seen.add(name)

        def rw(t, v=v):
            return rewrite(t, lambda x: N(v) if x == elem else None)
        g = rw(got)
        if extra:
            g = extra(g)
        ctx.same('%s %s' % (tag, name), g, rw(T(table[name](pos))), loc(fn), [T(x) for x in ass], 'bit emitted for descriptor ' + name)
    for name in table:
        if name not in seen:
            ctx.ob('%s %s' % (tag, name), None, 'descriptor no longer exists', loc(fn))
    return sm


def spec_of(settings, d):
    m = X(settings)[d]
    return has(m), m


def override(settings, d, lastbit, default):
    h, m = spec_of(settings, d)
    E = lambda n, v: X(('enum', LAST + n, v))
    return If(~h, default, If(m == E('H', 1), TRUE, If(m == E('L', 0), FALSE, If(m == E('LAST_BIT', 2), lastbit, If(m == E('INVALID', -1), default, FALSE)))))


def default_encoder(ctx):
    q = D + 'pattern_descriptor::t'
    val = dict(enumerators(ctx, q))
    f = ctx.fn(D + 'DefaultEncoder::encode')
    co = A0

    def b(x, i):
        return lambda pos: X(tb(T(x), N(i)))

    def ov(name, dflt):
        return lambda pos: override(A2.settings, N(val[name]), X(tb(T(A3), T(pos))), dflt(pos))
    t = {'H': lambda p: X(TRUE), 'L': lambda p: X(FALSE)}
    for nm in ('BL', 'CID0', 'CID1', 'CID2', 'CID3'):
        t[nm] = ov(nm, lambda p: X(TRUE))
    for nm in ('V', 'X', 'AP'):
        t[nm] = ov(nm, lambda p: X(FALSE))
    for i in range(9):
        t['BA%d' % i] = b(co.bank, i)
    for i in range(3):
        t['BG%d' % i] = b(co.bankGroup, i)
    for i in range(17):
        t['C%d' % i] = b(co.column, i) if i in (5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16) else ov('C%d' % i, b(co.column, i))
    for i in range(18):
        t['R%d' % i] = b(co.row, i)
    sm = encode_common(ctx, f, q, t, 'DefaultEncoder')
    ctx.ob('DefaultEncoder writes nothing else', not [x for x in sm.final() if x[0] != 'd'], str([show(x) for x in sm.final()])[:300], loc(f))
    pbits(ctx)
    return dict(explain='the default encoder is summarised to the bit it emits for the descriptor at each position of an arbitrary pattern (symbolic length, position, coordinate, overrides and previous pattern); for every descriptor the bit must be the constant, address bit or override the descriptor stands for, first descriptor at the most significant position.',
                assumptions=['patterns have at most 63 entries'], floor=55)


def pbits(ctx):
    for f in ctx.fns_of(r'^DRAMPower::patternApplyBitSpec'):
        sm = ctx.call(f)
        ctx.same('patternApplyBitSpec', truth(sm.ret), override(A0.settings, A1, A2 != 0, A3 != 0), loc(f))


def lpddr6_encoder(ctx):
    q = D + 'pattern_descriptor_LPDDR6::t'
    val = dict(enumerators(ctx, q))
    f = ctx.fn(D + 'LPDDR6Encoder::encode')
    co, ex = A0, A4
    bl24 = ex.currentBurstLength == 24

    def b(x, i):
        return lambda pos: X(tb(T(x), N(i)))
    t = {'H': lambda p: X(TRUE), 'L': lambda p: X(FALSE), 'V': lambda p: X(FALSE), 'X': lambda p: X(FALSE), 'BL': lambda p: bl24, 'SC': lambda p: co.subChannel == 1}
    for i in range(2):
        t['BA%d' % i] = b(co.bank, i)
        t['BG%d' % i] = b(co.bankGroup, i)
        t['DBG%d' % i] = lambda p, i=i: X(tb(T(co.dbank // ex.numberOfBankGroups), N(i)))
    t['C0'] = lambda p: bl24 & X(tb(T(co.column), ZERO))
    for i in range(1, 6):
        t['C%d' % i] = b(co.column, i)
    for i in range(17):
        t['R%d' % i] = b(co.row, i)
    par = val['PAR']
    # 1. without parity
    off = lambda t_: rewrite(t_, lambda x: ZERO if x == T(ex.parity_check_mode) else None)
    t['PAR'] = lambda p: X(FALSE)
    sm = encode_common(ctx, f, q, t, 'LPDDR6Encoder (parity off)', extra=off, assume=[S('k') != 2])
    encode_common(ctx, f, q, t, 'LPDDR6Encoder (parity off, third entry)', extra=off, k=2)
    # 2. with parity: the parity entry makes the number of ones even, everything else is unchanged
    on = lambda t_: rewrite(t_, lambda x: ONE if x == T(ex.parity_check_mode) else (N(par) if x == T(A1[2]) else None))
    n = X(('size', T(A1)))
    k = S('k')
    del t['PAR']
    encode_common(ctx, f, q, t, 'LPDDR6Encoder (parity on)', extra=on, assume=[k != 2, n >= 3])
    got = on(bit_at(ctx, sm, n - 3))
    r = on(sm.ret)
    txt = show(got)[:400]
    if r[0] == 'toint':
        base = r[1]
        if base[0] == 'agg':
            base = ('agg', base[1], tuple((p, x) for p, x in base[2] if p[0][0] == 'forall'))
        w = mod(('popcount', on(base)), N(2))
        ctx.same('LPDDR6Encoder parity bit', got, or_(eq(w, ONE), FALSE), loc(f), [T(n >= 3), T(n <= 63)], 'parity entry')
    else:
        ctx.ob('LPDDR6Encoder parity bit', None, txt, loc(f))
    ctx.ob('LPDDR6Encoder writes nothing else', not [x for x in sm.final() if x[0] != 'd'], '', loc(f))
    return dict(explain='the LPDDR6 encoder is summarised to the bit emitted per descriptor at an arbitrary position; every address, burst length, sub channel and constant descriptor must give its bit with and without parity mode, and the parity entry must be the parity of all other bits.',
                assumptions=['patterns have 3 to 63 entries', 'in parity mode the third entry of a pattern is the parity entry'], floor=60)


# ------------------------------------------------------------------------------------------------ overrides
def overrides(ctx):
    for cls in sorted({f['cls'] for f in ctx.fns_of(r'^DRAMPower::BasePatternEncoderOverrides<[^>]*>::getSetting$')}):
        tag = 'Overrides<%s> ' % ('LPDDR6' if 'LPDDR6' in cls else 'default')
        inv = X(('enum', LAST + 'INVALID', -1))
        m = this.settings
        for f in seqs(ctx, cls + '::getSetting', 1):
            sm = ctx.call(f)
            ctx.same(tag + 'getSetting', sm.ret, If(has(m[A0]), m[A0], inv), loc(f))
            ctx.effects(tag + 'getSetting', sm, {}, loc(f))
        for f in seqs(ctx, cls + '::hasSetting', 1):
            sm = ctx.call(f)
            ctx.same(tag + 'hasSetting', sm.ret, has(m[A0]), loc(f))
            ctx.effects(tag + 'hasSetting', sm, {}, loc(f))
        for f in seqs(ctx, cls + '::removeSetting', 1):
            sm = ctx.call(f)
            ctx.same(tag + 'removeSetting result', truth(sm.ret), has(m[A0]), loc(f))
            ctx.effects(tag + 'removeSetting', sm, {m: If(has(m[A0]), ('m', 'erase', m.t, (A0.t,)), m)}, loc(f))
        for f in seqs(ctx, cls + '::getSettings', 0):
            ctx.same(tag + 'getSettings', ctx.call(f).ret, m, loc(f))
        for f in seqs(ctx, cls + '::updateSettings', 1):
            sm = ctx.call(f)
            each_pair(ctx, tag + 'updateSettings', sm, f, True)
        for f in seqs(ctx, cls + '::BasePatternEncoderOverrides', 1):
            sm = ctx.call(f)
            each_pair(ctx, tag + 'constructor', sm, f, False)
    for f in ctx.fns_of(r'^DRAMPower::BasePatternEncoder<.*::setExtraData$'):
        ctx.same('setExtraData ' + f['q'], ctx.call(f).get(T(this.m_extraData)), A0, loc(f))
    for f in ctx.fns_of(r'^DRAMPower::BasePatternEncoder<.*::getExtraData$'):
        ctx.same('getExtraData ' + f['q'], ctx.call(f).ret, this.m_extraData, loc(f))
    for f in ctx.fns_of(r'^DRAMPower::BasePatternEncoder<.*>::BasePatternEncoder<'):
        if f['params']:
            ctx.same('encoder takes the overrides ' + f['cls'], ctx.call(f).get(T(this.settings)), A0, loc(f))
    pbits(ctx)
    return dict(explain='every operation of the override table is summarised and compared with the map operation it must perform (value for a present descriptor, INVALID otherwise; update overwrites; removal reports presence).',
                assumptions=[], floor=10)


def each_pair(ctx, key, sm, f, overwrite):
    """all entries of the initializer list are stored under their own descriptor"""
    j = ('ix', 'q')
    want = (('i', T(this.settings), T(A0[j].descriptor)), T(A0[j].bitSpec), ('rng', ZERO, ('size', T(A0))))
    hit = None
    for k, v in sm.state.store.items():
        if k[0] == 'forall' and k[1][0] == 'i' and k[1][1] == want[0][1]:
            ix, dom = k[2], k[3]
            sb = lambda t: subst(t, {ix: j})
            ctx.same(key + ' range', dom, want[2], loc(f), what='entries visited')
            ctx.same(key + ' key', sb(k[1][2]), want[0][2], loc(f), what='descriptor stored')
            ctx.same(key + ' value', sb(v), want[1], loc(f), what='value stored')
            hit = True
    if not hit:
        for e in sm.events:
            if e.kind == 'mut' and e.d['method'] in ('emplace', 'insert', 'insert_or_assign', 'try_emplace') and e.d['loc'] == want[0][1] and len(e.d['args']) == 2:
                loops = [c for c in e.ctx if c[0] == 'loop']
                if len(loops) == 1:
                    ix = loops[0][1]
                    sb = lambda t: subst(t, {ix: j})
                    ctx.same(key + ' range', loops[0][2], want[2], loc(f), what='entries visited')
                    ctx.same(key + ' key', sb(e.d['args'][0]), want[0][2], loc(f), what='descriptor stored')
                    ctx.same(key + ' value', sb(e.d['args'][1]), want[1], loc(f), what='value stored')
                    ctx.ob(key + ' keeps the latest value', not overwrite or e.d['method'] == 'insert_or_assign', 'an existing entry is not overwritten', loc(f))
                    hit = True
    if not hit:
        ctx.ob(key, False if not sm.events and not sm.final() else None, 'no store of the entries found', loc(f))


# ------------------------------------------------------------------------------------------------ pattern handler, router
def pattern_handler(ctx):
    es = enumerators(ctx, D + 'CmdType')
    val = dict(es)
    enc = {D + 'PatternHandler<DRAMPower::CmdType>': D + 'DefaultEncoder::encode'}
    for cls in sorted({f['cls'] for f in ctx.fns_of(r'^DRAMPower::PatternHandler<.*::getCommandPattern$')}):
        lp6 = 'LPDDR6' in cls
        tag = 'PatternHandler<%s> ' % ('LPDDR6' if lp6 else 'default')
        E = ctx.fn(D + ('LPDDR6Encoder' if lp6 else 'DefaultEncoder') + '::encode')
        args = lambda co, pat: [T(co), T(pat), T(this.m_encoder.settings), T(this.m_lastPattern), T(this.m_encoder.m_extraData)]
        for name, n in (('getCommandPattern', 2), ('getCoordinatePattern', 2)):
            for f in seqs(ctx, cls + '::' + name, n):
                sm = ctx.call(f)
                pat, co = (this.m_commandPatternMap[A0], A1) if name == 'getCommandPattern' else (A1, A0)
                ctx.throws(tag + name + ' without pattern', sm, X(('size', T(pat))) == 0, loc(f))
                want = subst(ctx.call(E).ret, dict(zip([('s', 'a%d' % i) for i in range(5)], args(co, pat))))
                ok = [T(X(('size', T(pat))) > 0)]
                k = S('k')
                sz = X(('size', T(pat)))
                for what, got in (('result', sm.ret), ('stored', sm.get(T(this.m_lastPattern)))):
                    if got == want:
                        ctx.ob(tag + name + ' ' + what, True)
                        continue
                    if want[0] == 'toint' and got[0] == 'toint':
                        p = T(sz - 1 - k)
                        ctx.same(tag + name + ' ' + what, truth(sm.eng.project(got[1], ('i', p))), truth(sm.eng.project(want[1], ('i', p))), loc(f), ok + [T(k >= 0), T(k < sz), T(sz <= 63)], 'bit of the encoded pattern')
                    else:
                        ctx.same(tag + name + ' ' + what, got, want, loc(f), ok)
                ctx.effects(tag + name, sm, {this.m_lastPattern: sm.get(T(this.m_lastPattern))}, loc(f))
        for f in seqs(ctx, cls + '::getPattern', 1):
            ctx.same(tag + 'getPattern', ctx.call(f).ret, this.m_commandPatternMap[A0], loc(f))
        for f in ctx.fns_of('^' + re.escape(cls) + '::registerPattern<'):
            m = re.search(r'CmdType::(\w+)>$', f['q'])
            if not m:
                continue
            sm = ctx.call(f)
            ctx.effects(tag + 'registerPattern<%s>/%s' % (m.group(1), f['params'][0]['t'].get('s', '')[:20]), sm, {this.m_commandPatternMap[N(val[m.group(1)])]: A0}, loc(f))
        for f in ctx.fns_of('^' + re.escape(cls) + '::PatternHandler'):
            if f['defaulted'] or f['implicit'] or not f['params']:
                continue
            sm = ctx.call(f)
            two = len(f['params']) >= 2
            v = sm.get(T(this.m_commandPatternMap))
            ctx.same(tag + 'constructor/%d patterns' % len(f['params']), v, ('fill', N(val['COUNT']), ('list', ())), loc(f), what='one empty pattern per command')
            ctx.same(tag + 'constructor/%d initial pattern' % len(f['params']), sm.get(T(this.m_lastPattern)), A1 if two else A0, loc(f))
            if two:
                ctx.same(tag + 'constructor overrides', sm.get(T(this.m_encoder.settings)), A0, loc(f))
    return dict(explain='for every instantiation of the pattern handler: a command without pattern is rejected with an exception, otherwise the encoding of exactly the registered pattern with the current overrides and the previous pattern is returned and remembered; registration changes exactly the entry of its command.',
                assumptions=['the encoder is correct (separate property)'], floor=40)


def router(ctx):
    val = dict(enumerators(ctx, D + 'CmdType'))
    cls = D + 'Router<DRAMPower::CmdType>'
    fs = [f for f in ctx.fns_of('^' + re.escape(cls) + '::Router$') if f['params'] and not f['defaulted'] and not f['implicit'] and 'optional' in f['params'][0]['t'].get('s', 'optional')]
    for f in fs:
        sm = ctx.call(f)
        v = sm.get(T(this.m_router))
        if v[0] == 'fill':
            ctx.same('Router size', v[1], N(val['COUNT']), loc(f), what='number of entries')
            w = rewrite(v[2], lambda x: TRUE if x == ('has', ('s', 'a0')) else None)
            ctx.same('Router default handler', w, val_(A0), loc(f))
            w = rewrite(v[2], lambda x: FALSE if x == ('has', ('s', 'a0')) else None)
            ctx.ob('Router no-op handler', True if w[0] == 'lam' and not lam_effects(ctx, w) else (None if w[0] != 'lam' else False), show(w)[:200], loc(f))
        else:
            ctx.ob('Router size', None, show(v)[:200], loc(f))
    for f in ctx.fns_of('^' + re.escape(cls) + '::routeCommand<'):
        m = re.search(r'CmdType::(\w+)', f['q'].split('routeCommand<')[1])
        ctx.effects('routeCommand<%s>' % m.group(1), ctx.call(f), {this.m_router[N(val[m.group(1)])]: A0}, loc(f))
    for f in ctx.fns_of('^' + re.escape(cls) + '::executeCommand$'):
        sm = ctx.call(f)
        calls = [e for e in sm.events if e.kind == 'call']
        ctx.ob('executeCommand calls once', len(calls) == 1 and all(c[0] != 'loop' for c in calls[0].ctx), '%d calls' % len(calls), loc(f))
        for e in calls[:1]:
            o = e.d.get('objval')
            ctx.same('executeCommand handler', o if o is not None else ZERO, this.m_router[A0.type], loc(f), what='handler called')
            ctx.same('executeCommand argument', e.d['args'][0], A0, loc(f), what='argument')
            ctx.same('executeCommand always', e.guard(), TRUE, loc(f), what='condition of the call')
    for f in ctx.fns_of('^' + re.escape(cls) + '::size$'):
        ctx.same('Router::size', ctx.call(f).ret, ('size', T(this.m_router)), loc(f))
    return dict(explain='the command router is summarised: it has one entry per command type, filled with the default (or a no-op) handler, routing replaces exactly the entry of its command, and execution calls exactly the entry of the command type once with the command.',
                assumptions=[], floor=8)


def val_(x):
    return val(x)


def lamfn(ctx, lam):
    for k in ([lam[1]] if isinstance(lam[1], str) else lam[1]):
        if k in ctx.F.functions:
            return ctx.F.functions[k]
    return None


def lam_effects(ctx, lam):
    f = lamfn(ctx, lam)
    if f is None:
        return False
    sm = ctx.call(f)
    return bool(sm.events) or bool(sm.final())


# ------------------------------------------------------------------------------------------------ implicit commands
def implicit(ctx):
    for f in ctx.fns_of(r'^DRAMPower::ImplicitCommandHandler<.*::addImplicitCommand<'):
        sm = ctx.call(f)
        key = 'add ' + f['cls'].replace(D, '')
        q = T(this.m_implicitCommandList)
        fin = sm.get(q)
        ctx.ob(key + ': queue changes', fin != q, 'the queue is not changed', loc(f))
        if fin == q:
            continue
        pos = item = None
        if fin[0] == 'm' and fin[1] in ('emplace', 'insert') and fin[2] == q and len(fin[3]) == 2:
            pos, item = fin[3]
        elif fin[0] == 'm' and fin[1] in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            ctx.ob(key + ': ordered insertion', False, 'entry is added at the end of the queue regardless of its time', loc(f))
            continue
        if pos is None:
            ctx.ob(key + ': form', None, show(fin)[:300], loc(f))
            continue
        p = sm.eng.project
        ctx.same(key + ': time', p(item, ('f', 'first')), A0, loc(f), what='time of the stored entry')
        ctx.same(key + ': action', p(item, ('f', 'second')), A1, loc(f), what='action of the stored entry')
        if pos[0] == 'c' and pos[1] in ('std::upper_bound', 'std::lower_bound') and len(pos[3]) in (3, 4):
            a = pos[3]
            ctx.ob(key + ': position', pos[1] == 'std::upper_bound', 'entries with equal times must stay in insertion order; %s puts the new entry before them' % pos[1], loc(f))
            ctx.same(key + ': search begin', a[0], ('it', q, ZERO), loc(f))
            ctx.same(key + ': search end', a[1], ('it', q, ('size', q)), loc(f))
            v = a[2]
            L = S('l')
            if len(a) == 4 and a[3][0] == 'lam' and lamfn(ctx, a[3]):
                g = lamfn(ctx, a[3])
                s2 = ctx.run(g, [S('n'), L])
                ctx.same(key + ': order', truth(s2.ret), S('n').first < L.first, loc(f), what='comparison new < stored')
            else:
                ctx.ob(key + ': order', None, 'comparison not understood', loc(f))
        else:
            # position must depend on the times: begin()/end() are wrong
            i = pos[2] if pos[0] == 'it' and pos[1] == q else None
            if i is not None and i[0] == 'endv' and i[2] == ('rng', ZERO, ('size', q)) and i[3] == ONE and i[4] == ZERO:
                # searched from the front: the first entry that satisfies the exit condition
                ctx.same(key + ': position', truth(i[5]), T(A0 < X(('f', ('i', q, i[1]), 'first'))), loc(f), what='the new entry is placed before the first stored one with')
            else:
                fixed = i is not None and not mentions(i, lambda x: x[0] in ('endv', 'loopv', 'loopx', 'unk', 'lc', 'lcv', 'c'))
                ctx.ob(key + ': position', False if fixed and not mentions(i, lambda x: x == T(A0)) else None, 'entry is inserted at %s' % show(pos)[:200], loc(f))
    for f in ctx.fns_of(r'^DRAMPower::ImplicitCommandHandler<.*::processImplicitCommandQueue$'):
        sm = ctx.call(f)
        key = 'process ' + f['cls'].replace(D, '')
        void = len(f['params']) == 2
        q = T(this.m_implicitCommandList)
        tm, last = (A0, A1) if void else (A1, A2)
        fin = sm.get(q)
        if fin[0] != 'loopv' or len(fin) != 5 or fin[2][0] != 'while':
            ctx.ob(key + ': form', False if fin == q else None, show(fin)[:300], loc(f))
            continue
        _, ix, w, step, init = fin
        # canonical carried variable of the queue in this loop
        cv = None
        for cand in (('lcv', 0), ('lcv', 1), ('lcv', 2)):
            if mentions(step, lambda x: x == cand):
                cv = cand
        ctx.same(key + ': starts with the queue', init, q, loc(f))
        if cv is None:
            ctx.ob(key + ': pops', None, show(step), loc(f))
            continue
        ctx.ob(key + ': pops the front', decided(step, ('m', 'pop_front', cv, ())), 'queue after one step: ' + show(step)[:300], loc(f))
        C = X(cv)
        cond = and_(*w[1]) if isinstance(w[1], tuple) and w[1] and isinstance(w[1][0], tuple) else w[1]
        ctx.same(key + ': loop condition', subst(cond, {cv: ('s', 'queue')}), subst(T((X(('size', cv)) != 0) & (C[0].first <= tm)), {cv: ('s', 'queue')}), loc(f), what='an entry is processed exactly when it is due')
        lv = sm.get(T(last))
        calls = [e for e in sm.events if e.kind == 'call']
        ctx.ob(key + ': one call per entry', len(calls) == 1 and len([c for c in calls[0].ctx if c[0] == 'loop']) == 1 and not [c for c in calls[0].ctx if c[0] == 'if'], '%d calls' % len(calls), loc(f))
        for e in calls[:1]:
            o = e.d.get('objval')
            ctx.ob(key + ': calls the front action', front(o, 'second', q), 'calls ' + show(o)[:200], loc(f))
            if not void:
                ctx.ob(key + ': context', len(e.d['args']) == 1 and e.d['locs'][:1] in (['a0'], [('s', 'a0')]) or [T(x) for x in e.d['locs']][:1] == [T(A0)], str(e.d['locs']), loc(f))
        ws = [e for e in sm.events if e.kind == 'write' and e.d['loc'] == T(last)]
        ctx.ob(key + ': last time', len(ws) >= 1 and front(ws[-1].d['val'], 'first', q) , 'last command time := ' + (show(ws[-1].d['val'])[:200] if ws else 'never written'), loc(f))
        others = [k for k in sm.final() if k not in (q, T(last), T(A0))]
        ctx.ob(key + ': nothing else', not others, str([show(k) for k in others]), loc(f))
    for f in ctx.fns_of(r'^DRAMPower::ImplicitCommandHandler<.*::implicitCommandCount$'):
        ctx.same('count ' + f['cls'].replace(D, ''), ctx.call(f).ret, ('size', T(this.m_implicitCommandList)), loc(f))
    return dict(explain='insertion, draining and counting of the queue of deferred commands are summarised for every instantiation: an entry is inserted behind all entries that are due no later (stable order), draining executes and removes exactly the due entries in order, each once, and records the time of the last one.',
                assumptions=['deferred actions do not enqueue further commands'], floor=70)


def decided(got, want):
    if got == want:
        return True
    return False if got[0] == 'm' else None


def front(o, field, q):
    """o is <front of the queue>.field in some iteration"""
    if o is None or o[0] != 'f' or o[2] != field:
        return None if o is None or mentions(o, lambda x: x[0] in ri.OPAQUE - {'lc', 'lcv'}) else False
    b = o[1]
    if b[0] == 'i' and b[1] in (('lc', q), q) or (b[0] == 'i' and b[1][0] in ('lc', 'lcv')):
        return b[2] == ZERO
    return None
