"""Statistics and energy containers: comparison, accumulation, totals, JSON."""
from core import *
from spec import *
from .command import enumerators

D = 'DRAMPower::'
STATS = [D + 'util::bus_stats_t', D + 'command_stats_t', D + 'cycles_t', D + 'prepos_t', D + 'CycleStats', D + 'SimulationStats']
JSONS = STATS + [D + 'TogglingStats']


def fields(ctx, q):
    """(name, type) of the data members of a record, members of its repo base classes first"""
    r = ctx.rec(q)
    out = []
    for b in r['bases']:
        bq = b['q'] if isinstance(b, dict) else b
        if bq in ctx.F.records:
            out += fields(ctx, bq)
    return out + [(f['n'], f['t'].get('t', '')) for f in r['fields'] if not f.get('static')]


def leaves(ctx, q, base, stop=()):
    """(place of each scalar part below base, type); vectors are returned as they are"""
    out = []
    for n, t in fields(ctx, q):
        p = getattr(base, n)
        if t in ctx.F.records and t not in stop:
            out += leaves(ctx, t, p, stop)
        else:
            out.append((p, t))
    return out


def elemtype(t):
    import re
    m = re.match(r'std::vector<(.*?)(, std::allocator.*)?>$', t)
    return m.group(1) if m else None


def same_leaves(ctx, q, a, b):
    """the term stating that the two objects are equal"""
    cs = []
    for (x, t), (y, _) in zip(leaves(ctx, q, a), leaves(ctx, q, b)):
        et = elemtype(t)
        if et is None:
            cs.append(x == y)
            continue
        ix = X(('ix', 0))
        el = same_leaves(ctx, et, x[ix], y[ix])
        cs.append(X(eq(('size', x.t), ('size', y.t))))
        cs.append(~X(('pred', 'any', ix.t, ('rng', ZERO, ('size', x.t)), T(~el))))
    return conj(cs)


def swapdom(x, y):
    """a loop over all elements of one of two equally long sequences may use either length"""
    def f(t):
        if t == ('size', y.t):
            return ('size', x.t)
    return f


def stats_combine(ctx):
    c = ctx
    for q in STATS:
        fn = c.fn(q + '::operator==')
        sm = c.call(fn)
        got, want = sm.ret, T(same_leaves(c, q, this, A0))
        vec = [x for x, t in leaves(c, q, this) if elemtype(t)]
        vec2 = [x for x, t in leaves(c, q, A0) if elemtype(t)]
        szeq = [T(X(('size', x.t)) == X(('size', y.t))) for x, y in zip(vec, vec2)]
        if vec:
            # objects with equal sizes; different sizes must compare unequal
            def norm(t, vec=vec, vec2=vec2):
                m = {('size', y.t): ('size', x.t) for x, y in zip(vec, vec2)}
                return subst(t, m)
            c.same(q + '::operator== compares every part', norm(got), norm(want), loc(fn), (), 'result for equally long sequences')
            for s in szeq:
                c.same(q + '::operator== is false for ' + show(not_(s)), got, FALSE, loc(fn), (not_(s),), 'result')
        else:
            c.same(q + '::operator== compares every part', got, want, loc(fn), (), 'result')
        c.effects(q + '::operator==', sm, {}, loc(fn))

        fn = c.fn(q + '::operator+=')
        sm = c.call(fn)
        want = {}
        skip = []
        for (x, t), (y, _) in zip(leaves(c, q, this), leaves(c, q, A0)):
            et = elemtype(t)
            if et is None:
                want[x] = x + y
                continue
            skip.append(x)
            k = S('k')
            n, m = X(('size', x.t)), X(('size', y.t))
            c.same('%s::operator+= length of %s' % (q, show(x.t)), sm.eng.size(sm.get(T(x))), If(n < m, m, n), loc(fn))
            for (u, ut), (v, _) in zip(leaves(c, et, x[k]), leaves(c, et, y[k])):
                key = '%s::operator+= %s' % (q, show(u.t))
                g = sm.get(T(u))
                c.same(key + ' present in both', g, u + v, loc(fn), (k >= 0, k < n, k < m))
                c.same(key + ' present in the left one only', g, u, loc(fn), (k >= 0, k < n, k >= m))
                c.same(key + ' present in the right one only', g, v, loc(fn), (k >= 0, k >= n, k < m))
        c.effects(q + '::operator+=', sm, want, loc(fn), ignore=skip)
        c.ob(q + '::operator+= leaves its argument alone', not any(prefix(T(A0), k[1] if k[0] == 'forall' else k) for k in sm.final()), '', loc(fn))
        c.throws(q + '::operator+=', sm, FALSE, loc(fn))
    # scaling and binary forms
    q = D + 'util::bus_stats_t'
    L = leaves(c, q, this)
    fn = c.fn(q + '::operator*=')
    c.effects(q + '::operator*=', c.call(fn), {x: x * A0 for x, _ in L}, loc(fn))
    for n, op in (('operator+', '+'), ('operator*', '*')):
        for f in [f for f in c.fns_of(r'^DRAMPower::util::' + '\\' .join(['operator', op]) + '$') if len(f['params']) == 2 and q in (f['params'][0]['t'].get('t'), f['params'][1]['t'].get('t'))]:
            sm = c.call(f)
            a, b = (A0, A1) if f['params'][0]['t'].get('t') == q else (A1, A0)
            for x, _ in L:
                p = relpath_of(x)
                w = at(a, p) + at(b, p) if op == '+' else at(a, p) * b
                c.same('%s(%s) %s' % (n, ', '.join(x['t'].get('t', '') for x in f['params']), '.'.join(p)), proj(sm, p), w, loc(f))
            c.effects(n + ' %s' % f['f'].split('|')[-1], sm, {}, loc(f), ignore=[A0 if f['params'][0]['t'].get('k') == 'r' and not f['params'][0]['t'].get('ref') else A1])
    json_rule(c, JSONS)
    return dict(explain='for every statistics structure: the comparison is the conjunction over all scalar members (found in the type), accumulation adds every member and extends the bank and rank lists, scaling multiplies every member, conversion to and from JSON covers every member under one key of its own',
                assumptions=['nlohmann::json stores and returns numbers and lists exactly', 'unsigned counters do not overflow'], floor=330)


def plain(ts):
    return not any(ri.opaque(t) or ri.unmodelled(t) for t in ts)


def one(ks, ts):
    """verdict on a part that must be stored exactly once"""
    return len(ks) == 1 if ks or plain(ts) else None


def relpath_of(x):
    p, t = [], x.t
    while t[0] == 'f':
        p.append(t[2])
        t = t[1]
    return p[::-1]


def at(b, p):
    for n in p:
        b = getattr(b, n)
    return b


def proj(sm, p):
    v = sm.ret
    for n in p:
        v = sm.eng.project(v, ('f', n))
    return v


def json_rule(c, qs):
    for q in qs:
        short = q.split('::')[-1]
        to = [f for f in c.fns_of(r'(^|::)to_json$') if len(f['params']) == 2 and f['params'][1]['t'].get('t') == q]
        fr = [f for f in c.fns_of(r'(^|::)from_json$') if len(f['params']) == 2 and f['params'][1]['t'].get('t') == q]
        if not c.ob('JSON of %s: conversion in both directions exists' % short, True if to and fr else None, 'no to_json/from_json found'):
            continue
        st, sf = c.call(to[0]), c.call(fr[0])
        keys = {}
        for k in st.final():
            keys.setdefault(k, st.get(k))
        used = {}
        for n, t in fields(c, q):
            fld = getattr(A1, n)
            ks = [k for k, v in keys.items() if v == ('json', fld.t)]
            if not c.ob('JSON of %s: %s is written' % (short, n), one(ks, list(keys) + list(keys.values())), 'written under %s' % [show(k) for k in ks], loc(to[0])):
                continue
            k = ks[0]
            c.ob('JSON of %s: %s has a key of its own' % (short, n), k not in used, show(k), loc(to[0]))
            used[k] = n
            g = sf.get(fld.t)
            c.same('JSON of %s: %s is read back from the same key' % (short, n), g, ('c', 'json:get', k, ()), loc(fr[0]), (('has', k),), 'value read')
        c.effects('from_json of ' + short, sf, {}, loc(fr[0]), ignore=[getattr(A1, n) for n, _ in fields(c, q)])
        for k in keys:
            if k not in used:
                c.ob('JSON of %s: only members are written' % short, k == A0.t, show(k), loc(to[0]))


# ------------------------------------------------------------------------------------------------ energies
EI = ['E_act', 'E_pre', 'E_bg_act', 'E_bg_pre', 'E_RD', 'E_WR', 'E_RDA', 'E_WRA', 'E_pre_RDA', 'E_pre_WRA', 'E_ref_AB', 'E_ref_PB', 'E_ref_SB', 'E_ref_2B', 'E_ref_DB']
SPLIT = ('E_pre_RDA', 'E_pre_WRA')      # parts already contained in E_RDA and E_WRA


def energy_totals(ctx):
    c = ctx
    ei, et, ie, ii = D + 'energy_info_t', D + 'energy_t', D + 'interface_energy_t', D + 'interface_energy_info_t'
    names = [n for n, _ in fields(c, ei)]
    parts = [n for n in names if n not in SPLIT]
    c.ob('energy_info_t has the documented parts', True if set(EI) <= set(names) else None, str(names))
    fn = c.fn(ei + '::total')
    sm = c.call(fn)
    w = X(ZERO)
    for n in parts:
        w = w + getattr(this, n)
    c.same('energy_info_t::total', sm.ret, w, loc(fn), (), 'total')
    c.effects('energy_info_t::total', sm, {}, loc(fn))
    for q in (ei, ie, ii):
        fn = c.fn(q + '::operator+=')
        sm = c.call(fn)
        c.effects(q + '::operator+=', sm, {x: x + y for (x, _), (y, _) in zip(leaves(c, q, this), leaves(c, q, A0))}, loc(fn))
    for q in (ie, ii):
        for f in [f for f in c.byq.get(D + 'operator+', []) if len(f['params']) == 2 and f['params'][0]['t'].get('t') == q]:
            sm = c.call(f)
            for x, _ in leaves(c, q, this):
                p = relpath_of(x)
                c.same('%s operator+ %s' % (q, '.'.join(p)), proj(sm, p), at(A0, p) + at(A1, p), loc(f))
    fn = c.fn(ii + '::total')
    sm = c.call(fn)
    w = X(ZERO)
    for x, _ in leaves(c, ii, this):
        w = w + x
    c.same('interface_energy_info_t::total', sm.ret, w, loc(fn), (), 'total')
    # energy_t
    ix = X(('ix', 0))
    dom = ('rng', ZERO, ('size', this.bank_energy.t))

    def banks(n):
        return X(('sum', ix.t, dom, getattr(this.bank_energy[ix], n).t))
    scal = [n for n, t in fields(c, et) if n != 'bank_energy']
    fn = c.fn(et + '::total')
    sm = c.call(fn)
    w = X(ZERO)
    for n in parts:
        w = w + banks(n)
    for n in scal:
        w = w + getattr(this, n)
    c.same('energy_t::total', sm.ret, w, loc(fn), (), 'total')
    c.effects('energy_t::total', sm, {}, loc(fn))
    fn = c.fn(et + '::aggregated_bank_energy')
    sm = c.call(fn)
    for n in names:
        w = banks(n)
        if n == 'E_bg_act':
            w = w + this.E_bg_act_shared
        c.same('energy_t::aggregated_bank_energy ' + n, proj(sm, [n]), w, loc(fn))
    c.effects('energy_t::aggregated_bank_energy', sm, {}, loc(fn))
    fn = c.fn(et + '::energy_t', 1, pick=lambda f: not f['implicit'])
    sm = c.call(fn)
    c.same('energy_t has one entry per bank', sm.eng.size(sm.get(T(this.bank_energy))), A0, loc(fn))
    for n in scal:
        c.same('energy_t::energy_t ' + n, sm.get(T(getattr(this, n))), N(0), loc(fn))
    for r in (ei, ie):
        for f in c.rec(r)['fields']:
            v = f.get('init')
            c.ob('%s::%s starts at zero' % (r.split('::')[-1], f['n']), None if v is None else float(v.get('v', 'nan')) == 0, '', c.rec(r)['file'])
    # JSON output: every part under a key of its own
    fn = c.fn(ei + '::to_json')
    jsonout(c, 'energy_info_t', c.call(fn), [getattr(this, n) for n in names], fn)
    fn = c.fn(ii + '::to_json')
    sm = c.call(fn)
    jsonout(c, 'interface_energy_info_t', sm, [x for x, _ in leaves(c, ii, this)], fn)
    fn = c.fn(et + '::to_json')
    sm = c.call(fn)
    rest = jsonout(c, 'energy_t', sm, [getattr(this, n) for n in scal], fn)
    lists = []
    for k, v in rest.items():
        if k == A0.t:
            continue
        lists.append((k, v))
    if len(lists) == 1 and lists[0][1][0] == 'loopv':
        k, v = lists[0]
        _, lx, ld, stp, init = v
        c.same('energy_t::to_json lists every bank', ld[2], ('size', this.bank_energy.t), loc(fn), (ld[0] == 'rng' and eq(ld[1], ZERO),))
        ok = stp[0] == 'm' and stp[1] == 'push_back' and init in ((('list', ()),) if isinstance(init, list) else (('list', ()), ('jnull',)))
        c.ob('energy_t::to_json appends one entry per bank', True if ok else None, show(v)[:300], loc(fn))
        if ok:
            el = stp[3][0]
            bank = X(('i', this.bank_energy.t, lx))
            seen = {}
            for n in names:
                f = getattr(bank, n)
                ks = [p for p, x in el[2] if x == ('json', f.t)] if el[0] == 'agg' else []
                c.ob('energy_t::to_json bank entry has ' + n, one(ks, [el]), show(el)[:600], loc(fn))
                for p in ks:
                    c.ob('energy_t::to_json bank entry key of %s is its own' % n, p not in seen, str(p), loc(fn))
                    seen[p] = n
    else:
        c.ob('energy_t::to_json lists every bank', None, str([show(v)[:200] for _, v in lists]), loc(fn))
    return dict(explain='totals, sums and JSON output of the energy structures as exact sums over all members found in the types; total() leaves out the precharge parts of auto precharge accesses, which E_RDA and E_WRA contain',
                assumptions=['floating point sums are compared as sums of real numbers', 'nlohmann::json stores numbers exactly'], floor=100)


def jsonout(c, what, sm, parts, fn):
    """each part is stored exactly once in the JSON argument, under a key of its own; returns the other writes"""
    rest = {k: sm.get(k) for k in sm.final()}
    rest = {k: v for k, v in rest.items() if not any(k2 != k and prefix(k, k2) for k2 in rest)}
    for p in parts:
        ks = [k for k, v in rest.items() if v == ('json', p.t)]
        c.ob('%s::to_json writes %s' % (what, show(p.t)), one(ks, list(rest) + [v for k, v in rest.items() if v[0] != 'loopv']), 'written to %s' % [show(k) for k in ks], loc(fn))
        for k in ks:
            rest.pop(k, None)
    return rest


# ------------------------------------------------------------------------------------------------ toggling rates
def toggling_handle(ctx):
    c = ctx
    Q = D + 'TogglingHandle'
    lb = this.last_burst
    v = A0 * this.datarate
    active = ~(X(lb.handled))
    full = lb.last_length + lb.last_load
    pos = (this.datarate > 0, this.width > 0)

    def fn(n, k=None):
        return c.fn(Q + '::' + n, k, pick=lambda f: not f['implicit'])
    f = fn('TogglingHandle', 6)
    sm = c.call(f)
    zero = N(0)
    for m, w in dict(width=A0, datarate=A1, toggling_rate=A2, duty_cycle=A3, idlepattern=A4, enableflag=S('a5'), count=zero, disable_timestamp=zero, disable_time=zero).items():
        c.same('constructor ' + m, sm.get(T(getattr(this, m))), w, loc(f))
    c.same('constructor: no burst', truth(sm.get(T(lb.handled))), TRUE, loc(f))
    # recording a burst
    f = fn('incCountBurstLength')
    sm = c.call(f)

    def burst(key, sm, length, f):
        c.same(key + ' adds the previous burst', sm.get(T(this.count)), this.count + If(active, lb.last_length, 0), loc(f), pos)
        c.same(key + ' pending', truth(sm.get(T(lb.handled))), ~(X(this.enableflag)), loc(f), pos)
        c.same(key + ' length', sm.get(T(lb.last_length)), If(this.enableflag, length, lb.last_length), loc(f), pos)
        c.same(key + ' start', sm.get(T(lb.last_load)), If(this.enableflag, v, lb.last_load), loc(f), pos)
        c.effects(key, sm, {}, loc(f), ignore=[this.count, lb])
    burst('burst', sm, A1, f)
    f = fn('incCountBitLength')
    burst('burst of bits', c.call(f), A1 // this.width, f)
    # switching off and on
    f = fn('disable')
    sm = c.call(f)
    done = If(v >= full, lb.last_length, v - lb.last_load)
    on = X(truth(this.enableflag.t))
    c.effects('disable', sm, {
        this.count: this.count + If(on & active, done, 0),
        lb.handled: If(on & active, True, lb.handled),
        this.disable_timestamp: If(on, v, this.disable_timestamp),
        this.enableflag: FALSE}, loc(f))
    f = fn('enable')
    sm = c.call(f)
    c.effects('enable', sm, {this.disable_time: this.disable_time + If(on, 0, v - this.disable_timestamp), this.enableflag: TRUE}, loc(f))
    # end of the last burst
    f = fn('get_lastburst_timestamp')
    sm = c.call(f)
    c.same('end of the last burst in bus cycles', sm.ret, full, loc(f), pos + (~(X(truth(A0.t))),))
    c.same('end of the last burst in clock cycles, rounded up', sm.ret, (full + this.datarate - 1) // this.datarate, loc(f), pos + (X(truth(A0.t)),))
    c.effects('get_lastburst_timestamp', sm, {}, loc(f))
    # statistics
    f = fn('get_stats')
    sm = c.call(f)
    run = If(v < full, v - lb.last_load, lb.last_length)
    cnt = this.count + If(on & active, run, 0)
    off = this.disable_time + If(on, 0, v - this.disable_timestamp)
    idle = v - off - cnt
    q = 'DRAMUtils::Config::TogglingRateIdlePattern'
    e = {n: X(('enum', q + '::' + n, i)) for n, i in enumerators(c, q)}

    def fl(x):
        return X(('ftoi', T(x)))
    one_ = X(N(1))
    dc, tr = this.duty_cycle, this.toggling_rate
    for nm, pat in (('low', 'L'), ('high', 'H')):
        st = pos + (this.idlepattern == e[pat],)
        toggles = fl(cnt * tr / 2) * this.width
        want = dict(ones=(fl(cnt * dc) + (idle if pat == 'H' else 0)) * this.width,
                    zeroes=(fl(cnt * (one_ - dc)) + (idle if pat == 'L' else 0)) * this.width,
                    ones_to_zeroes=toggles, zeroes_to_ones=toggles, bit_changes=toggles * 2)
        for m, w in want.items():
            c.same('statistics, idle %s: %s' % (nm, m), proj(sm, [m]), w, loc(f), st)
    c.effects('get_stats', sm, {}, loc(f))
    c.throws('get_stats', sm, this.idlepattern == e['Invalid'], loc(f))
    for n, m in (('getTogglingRate', 'toggling_rate'), ('getDutyCycle', 'duty_cycle'), ('isEnabled', 'enableflag'), ('getWidth', 'width'), ('getDatarate', 'datarate'), ('getCount', 'count')):
        f = fn(n)
        sm = c.call(f)
        c.same(n, sm.ret, getattr(this, m), loc(f))
        c.effects(n, sm, {}, loc(f))
    for n, ms in (('setWidth', ['width']), ('setDataRate', ['datarate']), ('setTogglingRateAndDutyCycle', ['toggling_rate', 'duty_cycle', 'idlepattern'])):
        f = fn(n)
        c.effects(n, c.call(f), {getattr(this, m): X(('s', 'a%d' % i)) for i, m in enumerate(ms)}, loc(f))
    f = c.fn(Q + '::TogglingHandleLastBurst::operator bool')
    sm = c.call(f)
    c.same('a burst is pending until handled', truth(sm.ret), ~X(truth(this.handled.t)), loc(f))
    return dict(explain='exact formulas for the toggling rate estimator: bursts counted once, partially when cut, none while disabled; the statistics combine burst length, duty cycle, toggling rate, idle level and bus width',
                assumptions=['bursts do not overlap (stated by an assertion of the code)', 'no arithmetic overflow', 'data rate and width are positive'], floor=45)

