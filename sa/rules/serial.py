"""Serialization: an object restored from a saved stream equals the saved object."""
import re
from core import *
from spec import *

D = 'DRAMPower::'
U = D + 'util::'
# state of each class: member path -> kind
#   s scalar, o optional, b bit set, m map, (v,K) list of any length, (c,K) list of configured length, (a,n,K) array, name of a class
BUSSTATS = {n: 's' for n in ('ones', 'zeroes', 'bit_changes', 'ones_to_zeroes', 'zeroes_to_ones')}
COUNTER = {n: 's' for n in ('act', 'pre', 'reads', 'writes', 'refAllBank', 'refPerBank', 'refPerTwoBanks', 'refDualBanks', 'refSameBank', 'readAuto', 'writeAuto')}
CYC = {n: 's' for n in ('act', 'pre', 'powerDownAct', 'powerDownPre', 'selfRefresh', 'deepSleepMode')}
PREPOS = {n: 's' for n in ('readMerged', 'readMergedTime', 'writeMerged', 'writeMergedTime', 'readSeamless', 'writeSeamless')}


def S_(*names, **kw):
    d = {n: 's' for n in names}
    d.update(kw)
    return d


STATE = {
    'bus_stats': BUSSTATS, 'counter': COUNTER, 'cycles': CYC, 'prepos': PREPOS,
    'cyclestats': {'counter': 'counter', 'cycles': 'cycles', 'prepos': 'prepos'},
    'interval': {'count': 's', 'start': 'o', 'end': 'o'},
    'bank': S_('bankState', 'latestPre', 'refreshEndTime', counter='counter', **{'cycles.' + n: 'interval' for n in ('act', 'powerDownAct', 'powerDownPre')}),
    'rank': S_('memState', 'endRefreshTime', 'counter.selfRefresh', 'counter.deepSleepMode', banks=('c', 'bank'),
               **{'cycles.' + n: 'interval' for n in ('pre', 'act', 'ref', 'sref', 'powerDownAct', 'powerDownPre', 'deepSleepMode')}),
    'core': S_('m_last_command_time', m_ranks=('c', 'rank')),
    'rankif': S_(*['%sPrePostamble%s_%s' % (a, b, c) for c in ('read', 'write') for a, b in (('seamless', 'Counter'), ('merged', 'Counter'), ('merged', 'Time'))] + ['lastReadEnd', 'lastWriteEnd']),
    'clock': {'last_start': 'o', 'stats': 'bus_stats'},
    'toggle': S_('width', 'datarate', 'toggling_rate', 'duty_cycle', 'enableflag', 'count', 'disable_timestamp', 'disable_time', 'idlepattern', last_burst='lastburst'),
    'lastburst': S_('last_length', 'last_load', 'handled'),
    'busburst': S_('count', 'load_time', bursts=('v', 'b')),
    'bitburst': S_('count', 'load_time', bitset='b'),
    'pendingbus': S_('m_timestamp', 'm_pending', m_stats='bus_stats'),
    'pendingpin': S_('m_timestamp', 'm_pending', 'm_stats.fromstate', 'm_stats.newstate'),
    'bus': S_('last_load', 'enableflag', 'virtual_disable_timestamp', 'last_pattern', stats='bus_stats', pending_stats='pendingbus', **{'burst_storage.m_bursts': 'busburst'}),
    'pin': S_('m_last_state', 'm_last_set', 'm_init_load', m_stats='bus_stats', m_pending_stats='pendingpin', **{'m_burst_storage.m_bursts': 'bitburst'}),
    'databus': S_('busType', busRead='bus', busWrite='bus', togglingHandleRead='toggle', togglingHandleWrite='toggle'),
    'proxy': {'m_dataBusContainer.m_databusVariant.$alt': 'databus'},
    'dbiburst': S_('m_init', 'm_start', 'm_end', 'm_n_chunks', 'm_n_bits', m_lastbeat=('v', 's'), m_inversions=('v', 's')),
    'dbi': S_('m_enable', 'lastBurstRead', m_lastBurst_read='dbiburst', m_lastBurst_write='dbiburst', m_invertedData=('v', 's')),
    'overrides': {'settings': 'm'},
    'encoder': {'settings': 'overrides'},
    'handler': S_('m_lastPattern', m_encoder='encoder'),
    'extra6': S_('currentBurstLength', 'parity_check_mode'),
    'encoder6': {'settings': 'overrides', 'm_extraData': 'extra6'},
    'handler6': S_('m_lastPattern', m_encoder='encoder6'),
    'extdbi': S_('m_enabled'), 'extmeta': S_('m_metadata.0', 'm_metadata.1'),
}
IF = dict(m_commandBus='bus', m_dataBus='proxy', m_readDQS='clock', m_clock='clock', m_last_command_time='s')
IFD = dict(m_dbi='dbi', m_dbiread=('c', 'pin'), m_dbiwrite=('c', 'pin'))
STATE['if_ddr4'] = dict(IF, m_writeDQS='clock', m_ranks=('c', 'rankif'), m_patternHandler='handler', **IFD)
STATE['if_ddr5'] = dict(IF, m_writeDQS='clock', m_patternHandler='handler')
STATE['if_lpddr4'] = dict(IF, m_writeDQS='clock', m_patternHandler='handler', **IFD)
STATE['if_lpddr5'] = dict(IF, m_wck='clock', m_patternHandler='handler', **IFD)
STATE['if_lpddr6'] = dict(IF, m_wck='clock', m_patternHandler='handler6', m_dbi='dbi', m_enabled='s', **{'m_formatter.m_metaData': ('a', 2, 's')})
CLASSES = [(re.escape(D + n), k) for n, k in (
    ('util::bus_stats_t', 'bus_stats'), ('command_stats_t', 'counter'), ('cycles_t', 'cycles'), ('prepos_t', 'prepos'), ('CycleStats', 'cyclestats'),
    ('util::interval_counter<unsigned long>', 'interval'), ('Bank', 'bank'), ('Rank', 'rank'), ('RankInterface', 'rankif'), ('util::Clock', 'clock'),
    ('TogglingHandle', 'toggle'), ('TogglingHandle::TogglingHandleLastBurst', 'lastburst'), ('extensions::DBI', 'extdbi'), ('extensions::MetaData', 'extmeta'),
    ('util::PendingStats<>', 'pendingbus'), ('PatternHandler<DRAMPower::CmdType>', 'handler'), ('BasePatternEncoder<>', 'encoder'), ('LPDDR6PatternExtraData', 'extra6'))]
CLASSES += [(D + r'util::Bus<(4|6|7|14|27|64)>', 'bus'), (D + r'util::Pin<\d+>', 'pin'), (D + r'util::DataBus<64>', 'databus'), (D + r'util::DataBusContainerProxy<.*>', 'proxy'),
            (D + r'util::DBI<[^>]*>', 'dbi'), (D + r'PatternHandler<DRAMPower::CmdType, .*>', 'handler6')]
for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6'):
    CLASSES += [(D + s + 'Core', 'core'), (D + s + 'Interface', 'if_' + s.lower())]


def sub_at(base, path):
    for n in path.split('.'):
        base = getattr(base, n)
    return base


def walk(kind, base, depth=0):
    """(place, what, conditions) of the parts of an object; what in s, o, b, m, size, csize"""
    if kind in ('s', 'o', 'b', 'm'):
        return [(base, kind, ())]
    if isinstance(kind, tuple):
        if kind[0] == 'a':
            return [x for j in range(kind[1]) for x in walk(kind[2], base[j], depth)]
        k = X(('s', '#k%d' % depth))
        n = X(('size', base.t))
        out = [(base, 'size' if kind[0] == 'v' else 'csize', ())]
        for p, w, a in walk(kind[1], base[k], depth + 1):
            out.append((p, w, (k >= 0, k < n) + a))
        return out
    out = []
    for path, k in STATE[kind].items():
        out += walk(k, sub_at(base, path), depth)
    return out


class Pairing:
    """what each value read from the stream was when it was written"""

    def __init__(self, w, r):
        self.val = {}
        self.memo = {}
        self.ok = len(w) == len(r)
        self.why = '' if self.ok else 'the stream gets %d values, %d are taken from it' % (len(w), len(r))
        for i, (x, y) in enumerate(zip(w, r)):
            self.val.setdefault(y.d['rd'], (x, tuple(c[1] for c in x.ctx if c[0] == 'loop')))

    def value(self, n, ixs, k=None):
        if n not in self.val:
            return None
        ev, own = self.val[n]
        if k is None:
            v = ev.d['deref'][0]
        elif 'elem' in ev.d:
            j = num(k)
            if ev.d['elems'] and j is not None:
                v = ev.d['elems'][int(j)] if 0 <= j < len(ev.d['elems']) else ('s', 'not saved')
            else:
                v = subst(ev.d['elem'], {('s', '#e'): k})
        else:
            v = ev.d['deref'][0]
            v = ('i', v, k) if v is not None else None
        if v is None:
            return None
        if own != ixs and len(own) == len(ixs):
            v = subst(v, dict(zip(own, ixs)))
        return v

    def res(self, t):
        if not isinstance(t, tuple) or not t or t[0] in ('n', 'b', 'enum', 'str', 's', 'v', 'null'):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t[0] == 'i' and t[1][0] == 'rd':
            v = self.value(t[1][1], tuple(self.res(x) for x in t[1][2]), self.res(t[2]))
            r = v if v is not None else ('unk', 'unpaired read')
        elif t[0] == 'rd':
            v = self.value(t[1], tuple(self.res(x) for x in t[2]))
            r = v if v is not None else ('unk', 'unpaired read')
        else:
            r = rebuild(t, self.res)
        self.memo[t] = r
        return r


def swap(src, dst, skip=()):
    """sizes of lists of configured length are the same in both objects"""
    def f(t):
        if t[0] == 'size' and root(t[1]) == dst.t and t[1] not in skip:
            return ('size', rep(t[1], dst.t, src.t))
        if t[0] in ('c', 'm') and any(root(x) == dst.t for x in t if isinstance(x, tuple) and x and x[0] in ('f', 'i')) and t[0] == 'c' and 'index' in str(t[1]):
            return subst(t, {dst.t: src.t})
    return f


def rep(t, a, b):
    if t == a:
        return b
    return (t[0], rep(t[1], a, b)) + t[2:] if t[0] in ('f', 'i') else t


def root(t):
    while t[0] in ('f', 'i'):
        t = t[1]
    return t


def round_trip(ctx, q, kind, fs, fd):
    c = ctx
    src, dst = S('saved'), S('restored')
    key = 'restore ' + q.replace(D, '')
    sm = c.run(fs, [('s', 'out')], src.t, concrete=70)
    dm = c.run(fd, [('s', 'in')], dst.t, concrete=70)
    w = [e for e in sm.events if e.kind == 'call' and e.d['q'].startswith('std::basic_ostream') and 'rd' in e.d]
    r = [e for e in dm.events if e.kind == 'call' and e.d['q'].startswith('std::basic_istream') and 'rd' in e.d]
    other = [e.d['q'] for e in sm.events + dm.events if e.kind == 'call' and e not in w and e not in r and ('serialize' in e.d['q'] or 'stream' in e.d['q'])]
    if other or not w and not r:
        c.ob(key, None, 'not followed: %s' % other[:4], loc(fd))
        return
    p = Pairing(w, r)
    skip = {x.t for x, k, _ in walk(kind, dst) if k == 'size'}
    sw = swap(src, dst, skip)

    def norm(t):
        return rewrite(p.res(t), sw)
    uncertain = any(ri.opaque(x) or ri.unmodelled(x) for e in w + r for x in e.ctx if x[0] != 'loop')
    if not c.ob(key + ': as many values are read as written', True if p.ok else (None if uncertain else False), p.why, loc(fd)):
        return
    for i, (x, y) in enumerate(zip(w, r)):
        what = 'value %d (%s)' % (i, show(x.d['args'][0])[:60])
        c.same('%s: %s size' % (key, what), norm(y.d['args'][1]), x.d['args'][1], loc(fd), (), 'bytes')
        lx, ly = [t for t in x.ctx if t[0] == 'loop'], [t for t in y.ctx if t[0] == 'loop']
        if not c.ob('%s: %s repeated equally' % (key, what), len(lx) == len(ly), 'written in %d loops, read in %d' % (len(lx), len(ly)), loc(fd)):
            return
        for u, v in zip(lx, ly):
            if u[2][0] != 'rng' or v[2][0] != 'rng':
                c.ob('%s: %s repetitions' % (key, what), True if u == norm(v) else None, '', loc(fd))
            else:
                c.same('%s: %s repetitions' % (key, what), norm(sub(v[2][2], v[2][1])), sub(u[2][2], u[2][1]), loc(fd), (), 'repetitions')
        gx = and_(*[t for t in x.ctx if t[0] not in ('loop', 'dead')])
        gy = and_(*[norm(t) for t in y.ctx if t[0] not in ('loop', 'dead')])
        c.same('%s: %s present under the same condition' % (key, what), gy, gx, loc(fd), (), 'condition')
    for (a, k, assume), (b, _, _) in zip(walk(kind, src), walk(kind, dst)):
        nm = '%s: %s' % (key, show(a.t).replace('saved.', ''))
        if k == 's':
            c.same(nm, norm(dm.get(b.t)), a, loc(fd), assume)
        elif k == 'o':
            v = dm.get(b.t)
            c.same(nm + ' present', norm(opthas(v)), has(a), loc(fd), assume, 'presence')
            c.same(nm + ' value', norm(optval(v)), val(a), loc(fd), assume + (has(a),), 'value')
        elif k in ('size', 'csize'):
            c.same(nm + ' length', norm(dm.eng.size(dm.get(b.t))), ('size', a.t), loc(fd), assume, 'length')
        elif k == 'b':
            n = width_of(c, q)
            if n is None:
                c.ob(nm, None, 'width unknown', loc(fd))
                continue
            for j in sorted({0, 1, n // 2, n - 1} | set(range(0, n, 7)) | set(range(7, n, 8))):
                c.same('%s bit %d' % (nm, j), truth(norm(dm.get(b[j].t))), truth(('i', a.t, N(j))), loc(fd), assume)
        elif k == 'm':
            mapstate(c, nm, dm, b, a, norm, fd)


def opthas(v):
    if v[0] == 'ite':
        return ite(v[1], opthas(v[2]), opthas(v[3]))
    return {'some': TRUE, 'none': FALSE}.get(v[0]) or ('has', v)


def optval(v):
    if v[0] == 'ite':
        return ite(v[1], optval(v[2]), optval(v[3]))
    if v[0] == 'some':
        return v[1]
    return ('f', v, '$val')


def width_of(c, q):
    m = re.search(r'<(\d+)>', q)
    if m and '::Bus<' in q or m and '::Pin<' in q or m and '::DataBus<' in q:
        return int(m.group(1))
    return 4 if 'Interface' in q or 'Proxy' in q else None


def mapstate(c, nm, dm, b, a, norm, fd):
    """the map is emptied and gets every pair of the saved one"""
    ks = [k for k in dm.final() if prefix(b.t, k[1] if k[0] == 'forall' else k)]
    base = dm.state.store.get(b.t)
    fa = [k for k in ks if k[0] == 'forall']
    if base is None or len(fa) != 1 or any(k not in (b.t, fa[0]) for k in ks):
        undec = base is not None or fa
        c.ob(nm, None if undec else False, 'not restored', loc(fd))
        return
    c.ob(nm + ' emptied before', True if base == ('list', ()) else None, show(base)[:200], loc(fd))
    k = fa[0]
    ix = k[2]
    pair = a[X(ix)]
    c.same(nm + ' keys', norm(k[1][2]), pair.first, loc(fd))
    c.same(nm + ' values', norm(dm.state.store[k]), pair.second, loc(fd))
    c.same(nm + ' number of entries', norm(sub(k[3][2], k[3][1])), ('size', a.t), loc(fd))


def serialization(ctx):
    c = ctx
    for pat, kind in CLASSES:
        fs = sorted(c.fns_of('^' + pat + '::serialize$'), key=lambda f: f['q'])
        if not c.ob('%s can be saved' % kind, True if fs else None, 'no serialize function of ' + pat):
            continue
        for f in fs:
            q = f['q'].rsplit('::', 1)[0]
            fd = [g for g in c.byq.get(q + '::deserialize', [])]
            if not fd:
                c.ob('restore ' + q, None, 'no deserialize function', loc(f))
                continue
            round_trip(c, q, kind, f, fd[0])
    # a core with pending deferred actions cannot be saved
    for s in ('DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6'):
        f = c.fn(D + s + 'Core::isSerializable')
        sm = c.call(f)
        c.same(s + ' core can be saved when nothing is deferred', truth(sm.ret), X(('size', this.m_implicitCommandHandler.m_implicitCommandList.t)) == 0, loc(f))
        c.effects(s + ' isSerializable', sm, {}, loc(f))
    return dict(explain='for every serializable class the values written by serialize() are paired in order with the values read by deserialize(); sizes, repetitions and conditions must agree and every part of the state of the restored object must equal that of the saved one',
                assumptions=['the object restored into was built for the same configuration (equal numbers of ranks, banks and pins)', 'streams return the bytes written', 'bit sets of the data bus are analysed for the listed widths'], floor=1500)
