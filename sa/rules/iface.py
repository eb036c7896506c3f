"""Interfaces: command patterns, command dispatch, data bursts, strobes, configuration."""
from core import *
from spec import *
import re
from rules.command import enumerators, lamfn
from rules.dbi import trace
from rules.dram import run_lambda
import ri

D = 'DRAMPower::'
U = D + 'util::'
STDS = ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6')
WIDTH = {'DDR4': 27, 'DDR5': 14, 'LPDDR4': 6, 'LPDDR5': 7, 'LPDDR6': 4}
RATE = {'DDR4': 1, 'DDR5': 1, 'LPDDR4': 1, 'LPDDR5': 2, 'LPDDR6': 2}
IDLE_H = ('DDR4', 'DDR5')
DES27 = 'H' + ' X' * 26
NOP14 = 'H H H H H' + ' V' * 9

# bits in transmission order, most significant first; B2 and B3 of LPDDR5 depend on the bank architecture
PATTERNS = {
    'DDR4': {
        'ACT': 'L L R16 R15 R14 BG0 BG1 BA0 BA1 V V V R12 R17 R13 R11 R10 R0 R1 R2 R3 R4 R5 R6 R7 R8 R9',
        'PRE': 'L H L H L BG0 BG1 BA0 BA1 V V V V V V V L' + ' V' * 10,
        'PREA': 'L H L H L V V V V V V V V V V V H' + ' V' * 10,
        'REFA': 'L H L L H' + ' V' * 22,
        'SREFEN': 'L H L L H' + ' V' * 22,
        'RD': 'L H H L H BG0 BG1 BA0 BA1 V V V V V V V L C0 C1 C2 C3 C4 C5 C6 C7 C8 C9',
        'RDA': 'L H H L H BG0 BG1 BA0 BA1 V V V V V V V H C0 C1 C2 C3 C4 C5 C6 C7 C8 C9',
        'WR': 'L H H L L BG0 BG1 BA0 BA1 V V V V V V V L C0 C1 C2 C3 C4 C5 C6 C7 C8 C9',
        'WRA': 'L H H L L BG0 BG1 BA0 BA1 V V V V V V V H C0 C1 C2 C3 C4 C5 C6 C7 C8 C9',
        'SREFEX': DES27 + ' L H H H H' + ' V' * 22,
        'PDEA': DES27, 'PDEP': DES27, 'PDXA': DES27, 'PDXP': DES27,
    },
    'DDR5': {
        'ACT': 'L L R0 R1 R2 R3 BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 R4 R5 R6 R7 R8 R9 R10 R11 R12 R13 R14 R15 R16 CID3',
        'PRE': 'H H L H H CID3 BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2',
        'RD': 'H L H H H H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 C2 C3 C4 C5 C6 C7 C8 C9 C10 V H V V CID3',
        'RDA': 'H L H H H H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 C2 C3 C4 C5 C6 C7 C8 C9 C10 V L V V CID3',
        'WR': 'H L H H L H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 V C3 C4 C5 C6 C7 C8 C9 C10 V H H V CID3',
        'WRA': 'H L H H L H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 V C3 C4 C5 C6 C7 C8 C9 C10 V L H V CID3',
        'PRESB': 'H H L H L CID3 BA0 BA1 V V H CID0 CID1 CID2',
        'REFSB': 'H H L L H CID3 BA0 BA1 V V H CID0 CID1 CID2',
        'REFA': 'H H L L H CID3 V V V V L CID0 CID1 CID2',
        'PREA': 'H H L H L CID3 V V V V L CID0 CID1 CID2',
        'SREFEN': 'H H H L H V V V V H L V V V',
        'SREFEX': NOP14, 'PDXA': NOP14, 'PDXP': NOP14, 'NOP': NOP14,
        'PDEA': 'H H H L H V V V V V H L V V',
        'PDEP': 'H H H L H V V V V V H L V V',
    },
    'LPDDR4': {
        'ACT': 'H L R12 R13 R14 R15 BA0 BA1 BA2 R16 R10 R11 R17 R18 R6 R7 R8 R9 R0 R1 R2 R3 R4 R5',
        'PRE': 'L L L L H L BA0 BA1 BA2 V V V',
        'PREA': 'L L L L H H V V V V V V',
        'REFB': 'L L L H L L BA0 BA1 BA2 V V V',
        'REFA': 'L L L H L H V V V V V V',
        'RD': 'L H L L L BL BA0 BA1 BA2 V C9 L L H L L H C8 C2 C3 C4 C5 C6 C7',
        'RDA': 'L H L L L BL BA0 BA1 BA2 V C9 H L H L L H C8 C2 C3 C4 C5 C6 C7',
        'WR': 'L L H L L BL BA0 BA1 BA2 V C9 L L H L L H C8 C2 C3 C4 C5 C6 C7',
        'WRA': 'L L H L L BL BA0 BA1 BA2 V C9 H L H L L H C8 C2 C3 C4 C5 C6 C7',
        'SREFEN': 'L L L H H V V V V V V V',
        'SREFEX': 'L L H L H V V V V V V V',
    },
    'LPDDR5': {
        'ACT': 'H H H R14 R15 R16 R17 BA0 BA1 B2 B3 R11 R12 R13 H H L R7 R8 R9 R10 R0 R1 R2 R3 R4 R5 R6',
        'PRE': 'L L L H H H H BA0 BA1 B2 B3 V V L',
        'PREA': 'L L L H H H H V V - - V V H',
        'REFB': 'L L L H H H L BA0 BA1 B2 V V V L',
        'REFP2B': 'L L L H H H L BA0 BA1 B2 V V V L',
        'REFA': 'L L L H H H L V V - V V V H',
        'RD': 'H L L C0 C3 C4 C5 BA0 BA1 B2 B3R C1 C2 L',
        'RDA': 'H L L C0 C3 C4 C5 BA0 BA1 B2 B3R C1 C2 H',
        'WR': 'L H H C0 C3 C4 C5 BA0 BA1 B2 B3 C1 C2 L',
        'WRA': 'L H H C0 C3 C4 C5 BA0 BA1 B2 B3 C1 C2 H',
        'SREFEN': 'L L L H L H H V V V V V L L',
        'SREFEX': 'L L L H L H L' + ' V' * 7,
        'PDEA': 'L L L H L H H V V V V V L H',
        'PDEP': 'L L L H L H H V V V V V L H',
        'PDXA': 'L L L H L H L' + ' V' * 7,
        'PDXP': 'L L L H L H L' + ' V' * 7,
        'DSMEN': 'L L L H L H H V V V V V H L',
        'DSMEX': 'L L L H L H L' + ' V' * 7,
    },
    'LPDDR6': {
        'NOP': 'L L L PAR L L L V' + ' X' * 8,
        'PDEA': 'L L L PAR L H L V' + ' X' * 8,
        'PDEP': 'L L L PAR L H L V' + ' X' * 8,
        'PDXA': 'V X X X V X X X V X X X V X X X',
        'PDXP': 'V X X X V X X X V X X X V X X X',
        'SREFEN': 'L L L PAR L L H H' + ' X' * 8,
        'SREFEX': 'L L L PAR L H H V' + ' X' * 8,
        'PRE': 'L L L PAR H H V SC V V V L BA0 BA1 BG0 BG1',
        'PREA': 'L L L PAR H H V SC V V V H X X X X',
        'REFDB': 'L L L PAR H L L SC DBG0 DBG1 V L BA0 BA1 BG0 BG1',
        'REFA': 'L L L PAR H L L SC X X V H X X X X',
        'ACT': 'H H H PAR H R15 R16 SC R11 R12 R13 R14 BA0 BA1 BG0 BG1 H H H PAR L R8 R9 R10 R4 R5 R6 R7 R0 R1 R2 R3',
        'WR': 'BL L H PAR C0 C1 L SC C2 C3 C4 C5 BA0 BA1 BG0 BG1',
        'WRA': 'BL L H PAR C0 C1 H SC C2 C3 C4 C5 BA0 BA1 BG0 BG1',
        'RD': 'BL H L PAR C0 C1 L SC C2 C3 C4 C5 BA0 BA1 BG0 BG1',
        'RDA': 'BL H L PAR C0 C1 H SC C2 C3 C4 C5 BA0 BA1 BG0 BG1',
    },
}
LP5 = {0: {'B2': 'BG0', 'B3': 'BG1', 'B3R': 'BG1'}, 1: {'B2': 'BA2', 'B3': 'BA3', 'B3R': 'BA3'}, 2: {'B2': 'BA2', 'B3': 'V', 'B3R': 'L'}}
SETTINGS0 = {'DDR4': {'V': 'H', 'X': 'H'}, 'DDR5': {'V': 'H', 'X': 'H', 'C0': 'H', 'C1': 'H'}, 'LPDDR4': {'C0': 'L', 'C1': 'L'}, 'LPDDR5': {}, 'LPDDR6': {}}
DATA = {'RD': True, 'RDA': True, 'WR': False, 'WRA': False}


def overrides(std, read):
    """burst length -> overridden descriptors (None: no override); 0 stands for every other length"""
    if std == 'DDR4':
        rd, w8 = {'C2': 'L', 'C1': 'L', 'C0': 'L'}, {'C2': 'H', 'C1': 'H', 'C0': 'H'}
        return {4: rd, 0: rd} if read else {4: {'C2': 'L', 'C1': 'H', 'C0': 'H'}, 0: w8}
    if std == 'DDR5':
        if read:
            return {8: {'C10': None, 'C3': 'L', 'C2': 'L'}, 32: {'C10': 'L', 'C3': 'L', 'C2': 'L'}, 0: {'C10': None, 'C3': 'L', 'C2': 'L'}}
        return {8: {'C10': None, 'C3': 'L', 'C2': 'H'}, 32: {'C10': 'L', 'C3': 'H', 'C2': 'H'}, 0: {'C10': None, 'C3': 'H', 'C2': 'H'}}
    if std == 'LPDDR4':
        return {32: {'C4': 'L', 'C3': 'L', 'C2': 'L', 'BL': 'H'}, 0: {'C4': None, 'C3': 'L', 'C2': 'L', 'BL': 'L'}}
    if std == 'LPDDR5':
        return {32: {'C0': 'L'}, 0: {'C0': None}}
    return {}


PROXY = U + 'DataBusContainerProxy::'
GET = D + 'PatternHandler::getCommandPattern'
FORMAT = D + 'LPDDR6Interface::DataFormatter::formatData'
BOUND = frozenset([PROXY + 'loadRead', PROXY + 'loadWrite', U + 'Bus::load', GET, U + 'DBI::updateDBI', U + 'DBI::dispatchResetCallback', U + 'Clock::start', U + 'Clock::stop', U + 'Pin::set', FORMAT])
MAP = this.m_patternHandler.m_commandPatternMap
SET = this.m_patternHandler.m_encoder.settings.settings
WID = this.m_dataBus.m_dataBusContainer.m_width
MODE = U + 'DataBusMode::'
BUSTYPE = this.m_dataBus.m_dataBusContainer.m_databusVariant
BUSTYPE = X(('f', ('f', T(BUSTYPE), '$alt'), 'busType'))
BUS, TOG = X(('enum', MODE + 'Bus', 0)), X(('enum', MODE + 'TogglingRate', 1))
ABSENT = ('s', 'absent')


def cls(std):
    return D + std + 'Interface::'


def ctor(ctx, std):
    l = [f for f in ctx.fns_of(r'^DRAMPower::%sInterface::%sInterface$' % (std, std)) if len(f['params']) >= 2]
    if not l:
        raise AnalysisBroken('constructor not found: ' + std)
    return l[0], ctx.call(l[0])


def sane(std):
    w = A0.bitWidth * A0.numberOfDevices
    return [T(w <= 64), not_(T(has(A1.toggleRateDefinition)))]


def descriptors(ctx, std):
    q = D + ('pattern_descriptor_LPDDR6::t' if std == 'LPDDR6' else 'pattern_descriptor::t')
    return {n: X(('enum', q.rsplit('::', 1)[0] + '::' + n, v)) for n, v in enumerators(ctx, q)}


def command(ctx, std, name):
    """summary of doCommand for one command, with the operations on buses, strobes and inversion kept as calls"""
    vals = dict(enumerators(ctx, D + 'CmdType'))
    f = ctx.fn(cls(std) + 'doCommand', 1)
    t = ('enum', D + 'CmdType::' + name, vals[name])
    return f, ctx.run(f, [A0], pre={T(A0.type): t}, bound=BOUND), t, vals[name]


class Calls:
    """calls of a summary by callee; results and sizes replaced by symbols"""

    def __init__(self, sm, std, name):
        self.sm = sm
        self.map = {}
        n = None
        if std in PATTERNS and name in PATTERNS[std]:
            n = len(PATTERNS[std][name].split())
        self.l = []
        res = {GET: 'pattern', U + 'DBI::updateDBI': 'dbi', FORMAT: 'format'}
        for e in sm.events:
            if e.kind == 'call':
                self.l.append(e)
        k = N(dict_cmd[name])

        def f(x):
            if x[0] == 'c' and x[1] in res:
                return ('s', res[x[1]])
            if x[0] == 'size' and x[1] == ('i', T(MAP), k) and n:
                return N(n)
            if x == T(this.m_commandBus.width):
                return N(WIDTH[std])
            if x[0] == 'f' and x[1] == ('s', 'format') and x[2] in ('0', '1'):
                return ('f', x[1], '$' + x[2])
            if x == ('has', ('s', 'dbi')):
                return TRUE
            if x == ('f', ('s', 'dbi'), '$val'):
                return ('s', 'inverted')
            return None
        self.f = f

    def rw(self, t):
        return rewrite(T(t), self.f)

    def of(self, q, obj=None):
        return [(self.rw(e.guard()), [self.rw(x) for x in e.d['args']]) for e in self.l if e.d['q'] in (q if isinstance(q, tuple) else (q,)) and (obj is None or e.d['obj'] == T(obj))]

    def others(self):
        return [e for e in self.l if e.d['q'] not in BOUND and not e.d['q'].startswith('std::')]


dict_cmd = {}


def modes():
    return [or_(T(BUSTYPE == BUS), T(BUSTYPE == TOG))]


def length(std):
    """beats of a burst"""
    n = A0.sz_bits // WID
    if std == 'LPDDR6':
        n = X(('f', ('s', 'format'), '$1')) // WID
    return If(A0.sz_bits == 0, If(BUSTYPE == TOG, this.m_memSpec.burstLength, 0), n)


def one(ctx, key, calls, want, where, assume=()):
    """exactly the calls of `want` (guard, arguments)"""
    trace(ctx, key, calls, [(T(g), a) for g, a in want], lambda a: 0, where, list(assume))


# ------------------------------------------------------------------------------------------------ commands
def commands(ctx):
    dict_cmd.update(enumerators(ctx, D + 'CmdType'))
    for std in STDS:
        with ctx.guard(std + ' patterns'):
            patterns(ctx, std)
        for name in PATTERNS[std]:
            with ctx.guard(std + ' ' + name):
                dispatch(ctx, std, name)
        with ctx.guard(std + ' other commands'):
            for name in ('END_OF_SIMULATION',) + (('PDEA', 'PDEP', 'PDXA', 'PDXP') if std == 'LPDDR4' else ()):
                f, sm, t, k = command(ctx, std, name)
                c = Calls(sm, std, name)
                key = std + ' ' + name + ' '
                one(ctx, key + 'leaves the command bus idle', c.of((U + 'Bus::load', GET)), [], loc(f))
                ctx.same(key + 'last command time', sm.get(T(this.m_last_command_time)), A0.timestamp, loc(f))
    return dict(explain='the constructor of every interface is summarised and the registered pattern of every command compared bit by bit with a table; doCommand is summarised for every command: the command bus is loaded exactly once, at the time of the command, with the pattern encoded for the command and its coordinate and all its beats, after the burst length overrides have been set as required.',
                assumptions=['the pattern tables (command truth tables of the standards as documented in the patterns of the pinned commit, reviewed)', 'address bits of LPDDR5 all bank commands in bank group mode are free'], floor=1500)


def patterns(ctx, std):
    f, sm = ctor(ctx, std)
    ds = descriptors(ctx, std)
    for name, text in PATTERNS[std].items():
        v = sm.get(('i', T(MAP), N(dict_cmd[name])))
        for arch in (0, 1, 2) if std == 'LPDDR5' else (None,):
            if name == 'REFP2B' and arch == 2:
                continue
            st = sane(std) + ([T(A0.bank_arch == arch)] if arch is not None else [])
            key = '%s pattern %s%s' % (std, name, '' if arch is None else ' architecture %d' % arch)
            bits = text.split()
            ctx.same(key + ' length', sm.eng.size(v), len(bits), loc(f), st)
            for j, b in enumerate(bits):
                if arch is not None:
                    b = LP5[arch].get(b, b)
                if b == '-':
                    if arch == 0:
                        continue
                    b = 'V'
                ctx.same(key + ' bit %d' % j, sm.get(('i', ('i', T(MAP), N(dict_cmd[name])), N(j))), ds[b], loc(f), st)
    m = this.m_patternHandler
    ctx.same(std + ' pattern before the first command', sm.get(T(m.m_lastPattern)), (1 << WIDTH[std]) - 1 if std in IDLE_H else 0, loc(f), sane(std))
    ctx.same(std + ' number of command slots', sm.eng.size(sm.get(T(MAP))), dict_cmd['COUNT'], loc(f), sane(std))
    b = this.m_commandBus
    for x, y in ((b.width, WIDTH[std]), (b.datarate, RATE[std]), (b.enableflag, True), (b.idle_pattern, X(('enum', U + 'BusIdlePatternSpec::' + ('H' if std in IDLE_H else 'L'), 1 if std in IDLE_H else 0))),
                 (this.m_last_command_time, 0)):
        g = sm.get(T(x))
        ctx.same('%s initial %s' % (std, show(T(x))), X(truth(g)) if y is True else g, y, loc(f), sane(std))
    # the initial overrides
    s = sm.get(T(SET))
    got = {}
    while s[0] == 'm' and s[1] == 'emplace' and len(s[3]) == 2:
        got.setdefault(s[3][0], s[3][1])
        s = s[2]
    if s == ('list', ()):
        bs = {n: v for n, v in enumerators(ctx, D + 'PatternEncoderBitSpec')}
        want = {T(ds[d]): ('enum', D + 'PatternEncoderBitSpec::' + v, bs[v]) for d, v in SETTINGS0[std].items()}
        ctx.ob(std + ' initial overrides', got == want, 'found %s ; required %s' % ({show(a): show(b) for a, b in got.items()}, SETTINGS0[std]), loc(f))
    else:
        ctx.ob(std + ' initial overrides', None, 'overrides not understood: ' + show(s)[:200], loc(f))
    if std == 'LPDDR6':
        ctx.same(std + ' bank groups known to the encoder', sm.get(T(m.m_encoder.m_extraData.numberOfBankGroups)), A0.numberOfBankGroups, loc(f), sane(std))


def dispatch(ctx, std, name):
    f, sm, t, k = command(ctx, std, name)
    c = Calls(sm, std, name)
    key = std + ' ' + name + ' '
    st = modes()
    if name == 'REFP2B':
        ok = or_(T(this.m_memSpec.bank_arch == 0), T(this.m_memSpec.bank_arch == 1))
        ctx.throws(key + 'is refused', sm, not_(ok), loc(f))
        st = st + [ok]
    g = c.of(GET)
    one(ctx, key + 'is encoded once', [(x, [a[0]]) for x, a in g], [(TRUE, [t])], loc(f), st)
    ctx.ob(key + 'is encoded with its coordinate', all(a[1] == T(A0.targetCoordinate) for x, a in g), 'encoded with ' + ', '.join(show(a[1]) for x, a in g), loc(f))
    n = len(PATTERNS[std][name].split()) // WIDTH[std]
    one(ctx, key + 'is put on the command bus', c.of(U + 'Bus::load', this.m_commandBus), [(TRUE, [A0.timestamp, S('pattern'), n])], loc(f), st)
    ctx.same(key + 'last command time', sm.get(T(this.m_last_command_time)), A0.timestamp, loc(f), st)
    if name in DATA:
        settings(ctx, std, name, sm, c, f, key, st)


def at_call(sm, c, path):
    """value of a part of the pattern handler when the pattern is encoded"""
    e = [e for e in c.l if e.d['q'] == GET][0]
    v = e.d['objval']
    for p in path:
        v = sm.eng.project(v, p)
    return v


def settings(ctx, std, name, sm, c, f, key, st):
    ds = descriptors(ctx, std)
    bs = {n: ('enum', D + 'PatternEncoderBitSpec::' + n, v) for n, v in enumerators(ctx, D + 'PatternEncoderBitSpec')}
    n = length(std)
    if std == 'LPDDR6':
        v = at_call(sm, c, (('f', 'm_encoder'), ('f', 'm_extraData'), ('f', 'currentBurstLength')))
        ctx.same(key + 'burst length known when encoded', c.rw(v), n, loc(f), st)
        return
    table = overrides(std, DATA[name])
    keep = [d for d in ('C0', 'C1', 'C2', 'C3', 'C4', 'C10', 'BL', 'V', 'X', 'H', 'L', 'BA0', 'R0') if d not in table[0]]
    for d in list(table[0]) + keep:
        x = at_call(sm, c, (('f', 'm_encoder'), ('f', 'settings'), ('f', 'settings'), ('i', T(ds[d]))))
        x = entry(c.rw(x), T(ds[d]))
        if d in keep:
            ctx.same(key + 'keeps override of ' + d, x, entry(('i', T(SET), T(ds[d])), T(ds[d])), loc(f), st)
            continue
        for l in (0, 4, 8, 12, 16, 24, 32, 64):
            want = value(table[l if l in table else 0][d], bs)
            case = [('toggling rate without data', {T(A0.sz_bits): N(0), T(BUSTYPE): T(TOG), T(this.m_memSpec.burstLength): N(l)})]
            if l:
                case.append(('with data', {T(A0.sz_bits): T(WID * l)}))
            else:
                case.append(('bus without data', {T(A0.sz_bits): N(0), T(BUSTYPE): T(BUS)}))
            for t, sub_ in case:
                ctx.same(key + 'override of %s, %d beats, %s' % (d, l, t), rewrite(x, sub_.get), want, loc(f), [T(WID > 0)] + [rewrite(T(a), sub_.get) for a in st])


def value(v, bs):
    return ABSENT if v is None else bs[v]


def entry(t, d):
    """the value of a map entry, ABSENT when there is none"""
    def f(x):
        if x[0] == 'i' and x[2] == d:
            m = x[1]
            if m[0] == 'm' and m[1] == 'erase':
                return ABSENT if m[3] == (d,) else f(('i', m[2], d))
            if m[0] == 'ite':
                return ite(m[1], f(('i', m[2], d)), f(('i', m[3], d)))
            if m == T(SET):
                return ite(('has', ('i', m, d)), ('s', 'old'), ABSENT)
        if x[0] == 'has' and x[1][0] == 'ite' and x[1][2:] == (('s', 'old'), ABSENT):
            return x[1][1]
        return None
    return rewrite(t, f)


# ------------------------------------------------------------------------------------------------ data
def data(ctx):
    dict_cmd.update(enumerators(ctx, D + 'CmdType'))
    for std in STDS:
        for name, read in DATA.items():
            with ctx.guard(std + ' ' + name):
                burst(ctx, std, name, read)
        for name in PATTERNS[std]:
            if name not in DATA:
                with ctx.guard(std + ' ' + name):
                    f, sm, t, k = command(ctx, std, name)
                    nothing_else(ctx, std, std + ' ' + name + ' ', f, sm, Calls(sm, std, name), (), (U + 'Bus::load', GET))
        with ctx.guard(std + ' lines'):
            lines(ctx, std)
        with ctx.guard(std + ' configuration'):
            configuration(ctx, std)
    with ctx.guard('LPDDR6 extras'):
        lpddr6(ctx)
    with ctx.guard('data bus'):
        databus(ctx)
    return dict(explain='doCommand is summarised for every read and write of every interface, for every data size, bus mode, inversion state and time: the data bus of the direction is loaded once with the (inverted) data at the time of the command, the strobe of the direction runs for the burst, WCK runs with it unless always on, DDR4 counts seamless bursts. Other commands touch none of these. Constructor, data bus mode switching, inversion line levels, enabling of LPDDR6 and its data formatting are compared with requirement formulas.',
                assumptions=['bursts of one rank and direction do not overlap (documented by an assertion)', 'the data bus is in bus or toggling rate mode'], floor=900)


def nothing_else(ctx, std, key, f, sm, c, locs, calls):
    """no other calls on the parts of the interface and no other writes"""
    extra = [e for e in c.l if e.d['q'] in BOUND and e.d['q'] not in calls]
    ctx.ob(key + 'does not touch other lines', not extra, 'calls ' + ', '.join('%s on %s' % (e.d['q'], show(e.d['obj'])) for e in extra), loc(f))
    pre = [T(this.m_last_command_time), T(SET), T(this.m_patternHandler.m_encoder.m_extraData), T(A0)] + [T(x) for x in locs]
    for k in sm.final():
        b = k[1] if k[0] == 'forall' else k
        if k[0] == 'g' or root(b)[0] in ('g', 'lc', 'local') or any(prefix(p, b) for p in pre):
            continue
        if sm.state.store[k] != k:
            ctx.same(key + 'keeps ' + show(b), sm.get(b) if k[0] != 'forall' else sm.state.store[k], b, loc(f))


def root(k):
    while k[0] in ('f', 'i'):
        k = k[1]
    return k


DQS = {'DDR4': ('m_readDQS', 'm_writeDQS'), 'DDR5': ('m_readDQS', 'm_writeDQS'), 'LPDDR4': ('m_readDQS', 'm_writeDQS'), 'LPDDR5': ('m_readDQS', None), 'LPDDR6': ('m_readDQS', None)}


def burst(ctx, std, name, read):
    f, sm, t, k = command(ctx, std, name)
    c = Calls(sm, std, name)
    key = std + ' ' + name + ' '
    st = modes()
    some, none_ = A0.sz_bits != 0, A0.sz_bits == 0
    ts, ms = A0.timestamp, this.m_memSpec
    n = length(std)
    # inversion
    inv = conj([some, BUSTYPE == BUS])
    enabled = [truth(T(this.m_dbi.m_enable)), truth(T(A0.data))]
    if std == 'DDR5':
        one(ctx, key + 'has no inversion', c.of(U + 'DBI::updateDBI'), [], loc(f))
        dat = A0.data
    else:
        one(ctx, key + 'inversion is decided', c.of(U + 'DBI::updateDBI', this.m_dbi), [(inv, [ts * ms.dataRate, A0.sz_bits, A0.data, int(read)])], loc(f), st + enabled)
        dat = If(conj([inv] + enabled), S('inverted'), A0.data)
    # data bus
    sz = A0.sz_bits
    if std == 'LPDDR6':
        fm = c.of(FORMAT)
        one(ctx, key + 'formats its data once', [(g, a[:2]) for g, a in fm], [(some, [dat, sz])], loc(f), st)
        for g, a in fm:
            ctx.same(key + 'passes the inversion state when on', truth(c.rw(sm.eng.has(a[2]))), truth(T(this.m_dbi.m_enable)), loc(f), st + [T(some)])
            v = sm.eng.project(a[2], ('f', '$val'))
            want = this.m_dbi.m_lastBurst_read.m_inversions if read else this.m_dbi.m_lastBurst_write.m_inversions
            ctx.same(key + 'passes the inversion state of its direction', unref(c.rw(v)), want, loc(f), st + [truth(T(this.m_dbi.m_enable)), T(some)])
        dat, sz = X(('f', ('s', 'format'), '$0')), X(('f', ('s', 'format'), '$1'))
    want = [(conj([none_, BUSTYPE == TOG]), [ts, ms.burstLength * WID, X(('null',))]), (some, [ts, sz, dat])]
    mine, other = ('loadRead', 'loadWrite') if read else ('loadWrite', 'loadRead')
    one(ctx, key + 'is put on the data bus', c.of(PROXY + mine, this.m_dataBus), want, loc(f), st)
    one(ctx, key + 'leaves the other direction alone', c.of(PROXY + other), [], loc(f), st)
    # strobes
    end = ts + n // ms.dataRate
    mine = DQS[std][0 if read else 1]
    for q in ('m_readDQS', 'm_writeDQS', 'm_wck', 'm_clock'):
        w = []
        if q == mine:
            g = TRUE
        elif q == 'm_wck' and std in ('LPDDR5', 'LPDDR6'):
            g = not_(truth(T(ms.wckAlwaysOnMode)))
        else:
            g = None
        if g is not None:
            w = [(g, [0, ts]), (g, [1, end])]
        got = []
        for e in c.l:
            if e.d['q'] in (U + 'Clock::start', U + 'Clock::stop') and e.d['obj'] == T(getattr(this, q)):
                got.append((c.rw(e.guard()), [N(int(e.d['q'].endswith('stop')))] + [c.rw(x) for x in e.d['args']]))
        one(ctx, key + 'strobe ' + q, got, w, loc(f), st)
    # seamless bursts
    locs = ()
    if std == 'DDR4':
        r = this.m_ranks[A0.targetCoordinate.rank]
        locs = (this.m_ranks,)
        for rd, d in ((True, 'read'), (False, 'write')):
            lastend = r.lastReadEnd if rd else r.lastWriteEnd
            cnt = getattr(r, 'seamlessPrePostambleCounter_' + d)
            a = st + [T(ts >= lastend)]
            if rd == read:
                ctx.same(key + 'end of the last access', sm.get(T(lastend)), end, loc(f), a)
                ctx.same(key + 'counts a seamless access', sm.get(T(cnt)), cnt + If(ts == lastend, 1, 0), loc(f), a)
            else:
                for x in (lastend, cnt):
                    ctx.same(key + 'keeps ' + show(T(x)), sm.get(T(x)), x, loc(f), a)
        for x in ('mergedPrePostambleCounter_read', 'mergedPrePostambleTime_read', 'mergedPrePostambleCounter_write', 'mergedPrePostambleTime_write'):
            x = getattr(r, x)
            ctx.same(key + 'keeps ' + show(T(x)), sm.get(T(x)), x, loc(f), st)
    nothing_else(ctx, std, key, f, sm, c, locs, BOUND - {U + 'DBI::dispatchResetCallback', U + 'Pin::set'})


def unref(t):
    return rewrite(t, lambda x: x[1] if x[0] in ('addr', 'ref') else None)


def lines(ctx, std):
    """level of the inversion lines"""
    if std in ('DDR5', 'LPDDR6'):
        return
    f, sm = ctor(ctx, std)
    cb = sm.get(T(this.m_dbi.m_changeCallback))
    lf = lamfn(ctx, cb) if cb[0] == 'lam' else None
    key = std + ' inversion line '
    if lf is None:
        return ctx.ob(key, None, 'callback not understood: ' + show(cb)[:200], loc(f))
    ps = list(enumerators(ctx, U + 'PinState'))
    lv = {n: X(('enum', U + 'PinState::' + n, v)) for n, v in ps}
    on, off = ('L', 'H') if std == 'DDR4' else ('H', 'L')
    for read in (True, False):
        r = run_lambda(ctx, cb, [T(A0), T(A1), T(A2), T(A3), TRUE if read else FALSE], BOUND)
        if r is None:
            ctx.ob(key + str(read), None, 'callback not understood', loc(f))
            continue
        calls = [(e.guard(), [e.d['obj']] + list(e.d['args'])) for e in r.events if e.kind == 'call' and e.d['q'] == U + 'Pin::set']
        v = this.m_dbiread if read else this.m_dbiwrite
        k = key + ('of reads ' if read else 'of writes ')
        one(ctx, k, [(g, a[1:]) for g, a in calls], [(TRUE, [A0, If(A3, lv[on], lv[off]), 1])], loc(f))
        ctx.ob(k + 'line', all(a[0] == T(v[A2]) for g, a in calls), 'sets ' + ', '.join(show(a[0]) for g, a in calls), loc(f))
        rest = [e for e in r.events if e.kind == 'call' and e.d['q'] in BOUND and e.d['q'] != U + 'Pin::set']
        ctx.ob(k + 'nothing else', not rest, 'calls ' + ', '.join(e.d['q'] for e in rest), loc(f))


def configuration(ctx, std):
    f, sm = ctor(ctx, std)
    st = sane(std)
    key = std + ' configuration '
    w = A0.bitWidth * A0.numberOfDevices
    lvl = 'H' if std in IDLE_H else 'L'
    b = this.m_dataBus.m_dataBusContainer
    ctx.same(key + 'data bus width', sm.get(T(b.m_width)), w, loc(f), st)
    var = sm.get(T(b.m_databusVariant))
    if var[0] == 'c' and var[1].startswith('ctor:std::variant') and len(var[3]) == 1:
        v0 = var[3][0]
        alts = [(e.guard(), e.d['t']) for e in sm.events if e.kind == 'alt' and 'DataBus<' in e.d['t']]
        for wd in (1, 8, 64, 65, 256, 257, 1024, 1025, 4096):
            sel = [(rewrite(g, {T(w): N(wd)}.get), int(re.search(r'DataBus<(\d+)', t).group(1))) for g, t in alts]
            for g, cap in sel:
                ctx.ob(key + 'capacity for %d lines: %d' % (wd, cap), True if cap >= wd or g == FALSE else False, 'a data bus for up to %d lines is chosen for %d lines' % (cap, wd), loc(f))
        IPS = {n: x for n, x in enumerators(ctx, U + 'BusIdlePatternSpec')}
        TRQ = 'DRAMUtils::Config::TogglingRateIdlePattern'
        TRIP = {n: x for n, x in enumerators(ctx, TRQ)}
        trd = A1.toggleRateDefinition
        tr = val(trd)
        for conf in ('', 'L', 'H'):
            for wd in (8, 64, 65, 256, 257, 1025) if ctx.tier == 'quick' else (8, 64, 65, 256, 257, 1024, 1025, 4096):
                sub_ = {T(has(trd)): TRUE if conf else FALSE, T(w): N(wd)}
                if conf:
                    other = {'L': 'H', 'H': 'L'}[conf]
                    sub_[T(tr.idlePatternRead)] = ('enum', TRQ + '::' + conf, TRIP[conf])
                    sub_[T(tr.idlePatternWrite)] = ('enum', TRQ + '::' + other, TRIP[other])
                v = rewrite(v0, sub_.get)
                P = lambda *p: proj(sm, v, p)
                k = key + '%s, %d lines: ' % ('toggling rate, idle ' + conf if conf else 'bus', wd)
                ctx.same(k + 'mode', P('busType'), TOG if conf else BUS, loc(f))
                ctx.same(k + 'width', P('width'), wd, loc(f))
                ctx.same(k + 'data rate', P('dataRate'), A0.dataRate, loc(f))
                for d in ('Read', 'Write'):
                    level = lvl if not conf else conf if d == 'Read' else other
                    ctx.same(k + d + ' bus enabled', X(truth(P('bus' + d, 'enableflag'))), not conf, loc(f))
                    ctx.same(k + d + ' bus width', P('bus' + d, 'width'), wd, loc(f))
                    ctx.same(k + d + ' bus data rate', P('bus' + d, 'datarate'), A0.dataRate, loc(f))
                    ctx.same(k + d + ' bus idle level', P('bus' + d, 'idle_pattern'), ('enum', U + 'BusIdlePatternSpec::' + level, IPS[level]), loc(f))
                    t = 'togglingHandle' + d
                    ctx.same(k + d + ' estimator enabled', X(truth(P(t, 'enableflag'))), bool(conf), loc(f))
                    ctx.same(k + d + ' estimator width', P(t, 'width'), wd, loc(f))
                    ctx.same(k + d + ' estimator data rate', P(t, 'datarate'), A0.dataRate, loc(f))
                    if conf:
                        ctx.same(k + d + ' estimator toggling rate', P(t, 'toggling_rate'), getattr(tr, 'togglingRate' + d), loc(f))
                        ctx.same(k + d + ' estimator duty cycle', P(t, 'duty_cycle'), getattr(tr, 'dutyCycle' + d), loc(f))
                        ctx.same(k + d + ' estimator idle level', P(t, 'idlepattern'), rewrite(T(getattr(tr, 'idlePattern' + d)), sub_.get), loc(f))
    else:
        ctx.ob(key + 'data bus', None, 'data bus not understood: ' + show(var)[:200], loc(f))
    # clocks: data rate and start
    rate = A0.dataRateSpec.dqsBusRate if std == 'DDR5' else A0.dataRate
    en = truth(T(A2)) if std == 'LPDDR6' else TRUE
    clocks = [(DQS[std][0], rate, FALSE), ('m_clock', 2, en)]
    if DQS[std][1]:
        clocks.append((DQS[std][1], rate, FALSE))
    else:
        clocks.append(('m_wck', A0.dataRate // A0.memTimingSpec.WCKtoCK, and_(en, truth(T(A0.wckAlwaysOnMode)))))
    for n, r, on in clocks:
        x = getattr(this, n)
        ctx.same(key + n + ' data rate', sm.get(T(x.dataRate)), r, loc(f), st)
        ls = sm.get(T(x.last_start))
        ctx.same(key + n + ' runs', X(truth(sm.eng.has(ls))), X(on), loc(f), st)
        if on != FALSE:
            ctx.same(key + n + ' runs from the start', sm.eng.project(ls, ('f', '$val')), 0, loc(f), st + [on])
    for m in ('dataRate', 'burstLength', 'bitWidth', 'numberOfRanks', 'bank_arch', 'wckAlwaysOnMode'):
        x = getattr(this.m_memSpec, m)
        if T(x) in sm.final():
            ctx.same(key + m, sm.get(T(x)), getattr(A0, m), loc(f), st)
    if std == 'DDR4':
        ctx.same(key + 'ranks', sm.eng.size(sm.get(T(this.m_ranks))), A0.numberOfRanks, loc(f), st)
    if std != 'DDR5':
        d = this.m_dbi
        dw = sm.get(T(d.m_width))
        if std == 'LPDDR6':
            ctx.same(key + 'inversion without lines', X(truth(sm.eng.has(dw))), False, loc(f), st)
        else:
            ctx.same(key + 'inversion over the bus', X(truth(sm.eng.has(dw))), True, loc(f), st)
            ctx.same(key + 'inversion bus width', sm.eng.project(dw, ('f', '$val')), w, loc(f), st)
            for x in (this.m_dbiread, this.m_dbiwrite):
                ctx.same(key + 'number of ' + show(T(x)), sm.eng.size(sm.get(T(x))), w // 8, loc(f), st)
        ctx.same(key + 'inversion burst length', sm.get(T(d.m_burstLength)), A0.burstLength, loc(f), st)
        ctx.same(key + 'inversion off', X(truth(sm.get(T(d.m_enable)))), False, loc(f), st)
        fe = ctx.fn(cls(std) + 'enableDBI', 1)
        ctx.effects(std + ' enableDBI', ctx.call(fe), {d.m_enable: A0}, loc(fe))
    fl = ctx.fn(cls(std) + 'getLastCommandTime', 0)
    ctx.same(std + ' getLastCommandTime', ctx.call(fl).ret, this.m_last_command_time, loc(fl))


def proj(sm, v, path):
    for p in path:
        v = sm.eng.project(v, ('f', p))
    return v


# ------------------------------------------------------------------------------------------------ LPDDR6
def lpddr6(ctx):
    c = cls('LPDDR6')
    for n, on in (('enable', True), ('disable', False)):
        f = ctx.fn(c + n, 1)
        sm = ctx.run(f, [A0], bound=BOUND)
        act = [not_(truth(T(this.m_enabled))) if on else truth(T(this.m_enabled))]
        ctx.same('LPDDR6 %s sets the state' % n, X(truth(sm.get(T(this.m_enabled)))), on, loc(f))
        ctx.same('LPDDR6 %s last command time' % n, sm.get(T(this.m_last_command_time)), If(X(act[0]), A0, this.m_last_command_time), loc(f))
        cl = [e for e in sm.events if e.kind == 'call' and e.d['q'] in BOUND]
        q = U + 'Clock::' + ('start' if on else 'stop')
        for clk, g in (('m_wck', this.m_memSpec.wckAlwaysOnMode), ('m_clock', True)):
            one(ctx, 'LPDDR6 %s %s' % (n, clk), [(e.guard(), e.d['args']) for e in cl if e.d['q'] == q and e.d['obj'] == T(getattr(this, clk))], [(conj([X(act[0]), g]), [A0])], loc(f))
        rest = [e for e in cl if e.d['q'] != q or e.d['obj'] not in (T(this.m_wck), T(this.m_clock))]
        ctx.ob('LPDDR6 %s nothing else' % n, not rest, 'calls ' + ', '.join(e.d['q'] for e in rest), loc(f))
    f = ctx.fn(c + 'isEnabled', 0)
    ctx.same('LPDDR6 isEnabled', ctx.call(f).ret, this.m_enabled, loc(f))
    ex = this.m_patternHandler.m_encoder.m_extraData.parity_check_mode
    f = ctx.fn(c + 'setParityCheckMode', 1)
    ctx.effects('LPDDR6 setParityCheckMode', ctx.call(f), {ex: A0}, loc(f))
    f = ctx.fn(c + 'getParityCheckMode', 0)
    ctx.same('LPDDR6 getParityCheckMode', ctx.call(f).ret, ex, loc(f))
    f = ctx.fn(c + 'setMetaData', 2)
    sm = ctx.call(f)
    M = this.m_formatter.m_metaData
    for i, a in ((0, A0), (1, A1)):
        ctx.same('LPDDR6 setMetaData %d' % i, sm.get(T(M[i])), a, loc(f))
    f = ctx.fn(c + 'getMetaData', 0)
    sm = ctx.call(f)
    r = sm.ret
    for i in (0, 1):
        ctx.same('LPDDR6 getMetaData %d' % i, tup(sm, r, i), M[i], loc(f))
    for nb in (1, 2):
        for inv in (True, False):
            with ctx.guard('LPDDR6 data format'):
                formatted(ctx, nb, inv)


def special(beat, dq):
    g = {4: 0, 5: 1, 10: 2, 11: 3}.get(dq)
    if g is not None and 8 <= beat < 12:
        return 'meta', 4 * g + beat - 8
    if g is not None and 20 <= beat < 24:
        return 'dbi', 4 * g + beat - 20
    return None


def tup(sm, v, i):
    """element of a tuple"""
    return sm.eng.project(v, ('f', str(i)))


def databits():
    """(beat, line) -> data bit: four beats at a time, each line carries four consecutive bits"""
    r, base = {}, 0
    for block in range(6):
        lines_ = [dq for dq in range(12) if not special(4 * block, dq)]
        for col, dq in enumerate(lines_):
            for j in range(4):
                r[4 * block + j, dq] = base + 4 * col + j
        base += 4 * len(lines_)
    return r


def formatted(ctx, nb, inv):
    f = ctx.fn(FORMAT, 3)
    M, R = this.m_metaData, this.m_formatResult
    key = 'LPDDR6 format of %d bursts %s inversion: ' % (nb, 'with' if inv else 'without')
    flags = tuple(truth(('s', 'inv%d' % i)) for i in range(16 * nb))
    pre = {T(S('state')): ('some', ('list', flags)) if inv else ('none',), T(R): ('list', tuple(N(255) for _ in range(72)))}
    sm = ctx.run(f, [A0, X(N(256 * nb)), S('state')], pre=pre, concrete=700)
    live = [truth(T(A0))]
    ctx.same(key + 'size', tup(sm, sm.ret, 1), 288 * nb, loc(f), live)
    ctx.same(key + 'size without data', tup(sm, sm.ret, 1), 288 * nb, loc(f), [not_(truth(T(A0)))])
    ctx.same(key + 'no result without data', X(not_(truth(tup(sm, sm.ret, 0)))), True, loc(f), [not_(truth(T(A0)))])
    ctx.same(key + 'result', tup(sm, sm.ret, 0), X(('addr', ('i', T(R), N(0)))), loc(f), live)
    bits = databits()
    for b in range(nb):
        for beat in range(24):
            for dq in range(12):
                s = special(beat, dq)
                if s is None:
                    n = 256 * b + bits[beat, dq]
                    w = ('tb', ('i', ('d', T(A0)), N(n // 8)), N(n % 8))
                elif s[0] == 'meta':
                    w = ('tb', T(M[b]), N(s[1]))
                else:
                    w = flags[16 * b + s[1]] if inv else FALSE
                o = 288 * nb - 1 - (288 * b + 12 * beat + dq)
                g = ('tb', sm.get(('i', T(R), N(o // 8))), N(o % 8))
                ctx.same(key + 'burst %d beat %d line %d' % (b, beat, dq), truth(g), truth(w), loc(f), live)


# ------------------------------------------------------------------------------------------------ data bus
DBB = frozenset([U + 'Bus::load', U + 'Bus::enable', U + 'Bus::disable', D + 'TogglingHandle::incCountBitLength', D + 'TogglingHandle::enable', D + 'TogglingHandle::disable', D + 'TogglingHandle::setTogglingRateAndDutyCycle'])


def databus(ctx):
    for size in (64, 256, 1024, 4096):
        q = U + 'DataBus<%dUL>::' % size
        if ctx.fn(q + 'loadRead', must=False) is None:
            q = U + 'DataBus<%d>::' % size
        k = 'data bus of up to %d lines ' % size
        bt = this.busType
        isbus, istog = bt == BUS, bt == TOG
        st = [or_(T(isbus), T(istog))]

        def calls(sm):
            return [e for e in sm.events if e.kind == 'call' and e.d['q'] in DBB]

        def check(f, sm, want, key, assume=()):
            """want: {(function, member): (guard, args)}"""
            cs = calls(sm)
            for fn_ in sorted({x for x, m in want} | {e.d['q'] for e in cs}):
                for m in ('busRead', 'busWrite', 'togglingHandleRead', 'togglingHandleWrite'):
                    w = want.get((fn_, m))
                    one(ctx, key + '%s of %s' % (fn_.rsplit('::', 1)[1], m), [(e.guard(), e.d['args']) for e in cs if e.d['q'] == fn_ and e.d['obj'] == T(getattr(this, m))], [w] if w else [], loc(f), st + list(assume))

        for d, o in (('Read', 'Write'), ('Write', 'Read')):
            f = ctx.fn(q + 'load' + d, 3)
            sm = ctx.run(f, [A0, A1, A2], bound=DBB)
            check(f, sm, {(U + 'Bus::load', 'bus' + d): (conj([isbus, A1 != 0, X(truth(T(A2)))]), [A0, A2, A1]),
                          (D + 'TogglingHandle::incCountBitLength', 'togglingHandle' + d): (T(istog), [A0, A1])}, k + 'load' + d + ': ')
            ctx.effects(k + 'load' + d, sm, {}, loc(f))
        for n, buson in (('enableBus', True), ('enableTogglingRate', False)):
            f = ctx.fn(q + n, 1)
            sm = ctx.run(f, [A0], bound=DBB)
            want = {}
            for d in ('Read', 'Write'):
                want[U + 'Bus::' + ('enable' if buson else 'disable'), 'bus' + d] = (TRUE, [A0])
                want[D + 'TogglingHandle::' + ('disable' if buson else 'enable'), 'togglingHandle' + d] = (TRUE, [A0])
            check(f, sm, want, k + n + ': ')
            ctx.effects(k + n, sm, {bt: BUS if buson else TOG}, loc(f))
        f = ctx.fn(q + 'setTogglingRateDefinition', 1)
        sm = ctx.run(f, [A0], bound=DBB)
        check(f, sm, {(D + 'TogglingHandle::setTogglingRateAndDutyCycle', 'togglingHandle' + d): (TRUE, [getattr(A0, 'togglingRate' + d), getattr(A0, 'dutyCycle' + d), getattr(A0, 'idlePattern' + d)]) for d in ('Read', 'Write')}, k + 'definition: ')
        for n, v in (('isBus', isbus), ('isTogglingRate', istog), ('getWidth', this.width), ('getDataRate', this.dataRate)):
            f = ctx.fn(q + n, 0, must=False)
            if f is not None:
                ctx.same(k + n, ctx.call(f).ret, v, loc(f), st)


# ------------------------------------------------------------------------------------------------ statistics of a window
GETTERS = frozenset([U + 'Bus::get_stats', U + 'Clock::get_stats_at', U + 'Pin::get_stats_at', D + 'TogglingHandle::get_stats'])
LINE = ('ones', 'zeroes', 'bit_changes', 'ones_to_zeroes', 'zeroes_to_ones')


def getter(q, obj, *args):
    return X(('c', q, T(obj), tuple(T(a) for a in args)))


def window(ctx):
    for std in STDS:
        with ctx.guard(std + ' window'):
            window_of(ctx, std)
    with ctx.guard('forwarding'):
        forwarding(ctx)
    return dict(explain='getWindowStats of every interface is summarised with the statistics of a single bus, clock, line and estimator at a time as given functions; every counter of every line group is compared with the required combination: both lines of differential pairs, two strobe pairs for x16 devices, the sum over all inversion lines. The window statistics of a device combine core and interface at the same time.',
                assumptions=['the statistics passed in are fresh'], floor=400)


def window_of(ctx, std):
    f = ctx.fn(cls(std) + 'getWindowStats', 2)
    sm = ctx.run(f, [A0, A1], bound=GETTERS)
    alt = X(('f', T(this.m_dataBus.m_dataBusContainer.m_databusVariant), '$alt'))
    bus = lambda b: getter(U + 'Bus::get_stats', b, A0)
    tog = lambda b: getter(D + 'TogglingHandle::get_stats', b, A0)
    clk = lambda c, k: (getter(U + 'Clock::get_stats_at', c, A0), k)
    pairs = If(this.m_memSpec.bitWidth == 16, 2, 1)
    want = {'commandBus': (bus(this.m_commandBus), 1), 'readBus': (bus(alt.busRead), 1), 'writeBus': (bus(alt.busWrite), 1),
            'togglingStats.read': (tog(alt.togglingHandleRead), 1), 'togglingStats.write': (tog(alt.togglingHandleWrite), 1), 'clockStats': clk(this.m_clock, 2)}
    if std in ('DDR4', 'DDR5', 'LPDDR4'):
        want['readDQSStats'] = clk(this.m_readDQS, 2 * pairs)
        want['writeDQSStats'] = clk(this.m_writeDQS, 2 * pairs)
    else:
        want['readDQSStats'] = clk(this.m_readDQS, 2)
        want['wClockStats'] = clk(this.m_wck, 2)
    if std in ('DDR4', 'LPDDR4', 'LPDDR5'):
        want['readDBI'] = this.m_dbiread
        want['writeDBI'] = this.m_dbiwrite

    def rw(t):
        def g(x):
            if x[0] == 'f' and x[2] in LINE and root(x) == T(A1):
                return N(0)
            if x[0] == 'c' and x[1] in GETTERS:   # reference or value of the same object
                return ('c', x[1], x[2], tuple(x[3]))
            return None
        return rewrite(t, g)
    groups = ('commandBus', 'readBus', 'writeBus', 'clockStats', 'wClockStats', 'readDQSStats', 'writeDQSStats', 'readDBI', 'writeDBI', 'togglingStats.read', 'togglingStats.write')
    for g in groups:
        loc_ = A1
        for p in g.split('.'):
            loc_ = getattr(loc_, p)
        w = want.get(g)
        for m in LINE:
            if w is None:
                x = 0
            elif isinstance(w, tuple):
                x = getattr(w[0], m) * w[1]
            else:
                x = X(('sum', ('ix', 0), ('rng', N(0), ('size', T(w))), T(getattr(getter(U + 'Pin::get_stats_at', w[X(('ix', 0))], A0, this.m_memSpec.dataRate), m))))
            for bw in (8, 16):
                width = {T(this.m_memSpec.bitWidth): N(bw)}.get
                ctx.same('%s %s %s of x%d' % (std, g, m, bw), rewrite(rw(sm.get(T(getattr(loc_, m)))), width), rewrite(T(x), width), loc(f))
    if std == 'DDR4':
        i = X(('ix', 0))
        r, pp = this.m_ranks[i], A1.rank_total[i].prepos
        dom = [T(i >= 0), T(i < this.m_memSpec.numberOfRanks)]
        for a, b in (('readSeamless', 'seamlessPrePostambleCounter_read'), ('writeSeamless', 'seamlessPrePostambleCounter_write'), ('readMerged', 'mergedPrePostambleCounter_read'), ('readMergedTime', 'mergedPrePostambleTime_read'), ('writeMerged', 'mergedPrePostambleCounter_write'), ('writeMergedTime', 'mergedPrePostambleTime_write')):
            ctx.same('DDR4 rank ' + a, sm.get(T(getattr(pp, a))), getattr(r, b), loc(f), dom)
        ctx.same('DDR4 ranks', sm.eng.size(sm.get(T(A1.rank_total))), this.m_memSpec.numberOfRanks, loc(f))


def forwarding(ctx):
    """window statistics of a device: core and interface once each (they fill disjoint parts), both at the same time on the same fresh statistics"""
    for std in STDS:
        f = ctx.fn(D + std + '::getWindowStats', 1)
        qs = [D + std + 'Core::getWindowStats', D + std + 'Interface::getWindowStats']
        sm = ctx.run(f, [A0], bound=frozenset(qs))
        cs = [e for e in sm.events if e.kind == 'call' and e.d['q'] in qs]
        ctx.ob(std + ' window parts', sorted(e.d['q'] for e in cs) == sorted(qs) and all(e.guard() == TRUE and not e.loops() for e in cs), 'calls ' + ', '.join(e.d['q'] for e in cs), loc(f))
        for e in cs:
            o = this.m_core if e.d['q'] == qs[0] else this.m_interface
            n = e.d['q'].rsplit('::', 2)[1]
            ctx.ob('%s window of %s' % (std, n), e.d['obj'] == T(o), 'object ' + show(e.d['obj']), loc(f))
            ctx.same('%s window time of %s' % (std, n), e.d['args'][0], A0, loc(f))
