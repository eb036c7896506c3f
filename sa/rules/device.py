"""Device facade, extensions and their managers."""
from core import *
from spec import *
from rules.dram import run_lambda
from rules.iface import STDS, cls, tup
import re
import ri

D = 'DRAMPower::'
U = D + 'util::'
BASE = D + 'dram_base'
BQ = BASE + '<DRAMPower::CmdType>::'
IMPLS = ('doCoreCommandImpl', 'doInterfaceCommandImpl', 'getLastCommandTime_impl', 'serialize_impl', 'deserialize_impl', 'getWindowStats', 'calcCoreEnergyStats', 'calcInterfaceEnergyStats')
BI = frozenset(BASE + '::' + n for n in IMPLS)
MISC = ('std::', 'ctor:', '__')


def at(sm, v, path):
    for p in path:
        v = sm.eng.project(T(v), ('f', p))
    return v


def calls(sm, only=None):
    return [e for e in sm.events if e.kind == 'call' and (e.d['q'] in only if only is not None else not e.d['q'].startswith(MISC))]


def sequence(ctx, key, sm, want, where, only=None):
    """the calls made are exactly `want` = [(callee, object, arguments)], unconditionally and once each; gives their order"""
    got = calls(sm, only)
    ok = sorted(e.d['q'] for e in got) == sorted(w[0] for w in want)
    ctx.ob(key + ': calls', ok, 'calls found: %s ; required: %s' % (', '.join(e.d['q'] for e in got) or 'none', ', '.join(w[0] for w in want)), where)
    if not ok:
        return None
    for q, o, a in want:
        e = [e for e in got if e.d['q'] == q][0]
        k = '%s: %s' % (key, q.rsplit('::', 1)[1])
        ctx.same(k + ' unconditional', X(e.guard()), True, where)
        ctx.ob(k + ' once', not e.loops(), 'called in a loop', where)
        if o is not None:
            ctx.ob(k + ' object', e.d['obj'] == T(o) or e.d.get('objval') == T(o), 'object %s' % show(e.d['obj']), where)
        if a is not None:
            for i, x in enumerate(a):
                if i < len(e.d['args']):
                    ctx.same('%s argument %d' % (k, i), e.d['args'][i], x, where)
    return [e.d['obj'] for e in got]


def mirrored(ctx, key, orders, where):
    """what is written in one order is read back in the same order"""
    if None not in orders.values() and len(orders) == 2:
        a, b = orders.values()
        ctx.ob(key + ': read in the order written', a == b, 'written %s ; read %s' % ([show(x) for x in a], [show(x) for x in b]), where)


def rethis(sm, thisv):
    """the result of a summarised const member function for another object"""
    return rewrite(sm.ret, {('s', 'this'): T(thisv)}.get)


def device(ctx):
    n = 0
    with ctx.guard('common device functions'):
        cq = lambda name: BASE + '::' + name
        both = [(cq('doCoreCommandImpl'), this, [A0]), (cq('doInterfaceCommandImpl'), this, [A0])]
        for name, want in (('doCommand', both), ('doCoreInterfaceCommand', both), ('doCoreCommand', both[:1]), ('doInterfaceCommand', both[1:])):
            f = ctx.fn(BQ + name, 1)
            sm = ctx.run(f, [A0], bound=BI)
            sequence(ctx, name, sm, want, loc(f))
            ctx.effects(name, sm, {}, loc(f))
            n += 1
        f = ctx.fn(BQ + 'getLastCommandTime', 0)
        sm = ctx.run(f, [], bound=BI)
        L = ('c', cq('getLastCommandTime_impl'), T(this), ())
        ctx.same('getLastCommandTime', sm.ret, X(L), loc(f))
        W = lambda t: ('c', cq('getWindowStats'), T(this), (T(t),))
        f = ctx.fn(BQ + 'getStats', 0)
        ctx.same('getStats', ctx.run(f, [], bound=BI).ret, X(W(L)), loc(f))
        E = {}
        for name, impl in (('calcCoreEnergy', 'calcCoreEnergyStats'), ('calcInterfaceEnergy', 'calcInterfaceEnergyStats')):
            f = ctx.fn(BQ + name, 1)
            E[name] = ('c', cq(impl), T(this), (W(A0),))
            ctx.same(name, ctx.run(f, [A0], bound=BI).ret, X(E[name]), loc(f))
        f = ctx.fn(BQ + 'getTotalEnergy', 1)
        core = ctx.run(ctx.fn(D + 'energy_t::total', 0), [])
        itf = ctx.run(ctx.fn(D + 'interface_energy_info_t::total', 0), [])
        ctx.same('getTotalEnergy', ctx.run(f, [A0], bound=BI).ret, X(rethis(core, X(E['calcCoreEnergy']))) + X(rethis(itf, X(E['calcInterfaceEnergy']))), loc(f))
        EM = U + 'extension_manager::ExtensionManager'
        orders = {}
        for name in ('serialize', 'deserialize'):
            f = ctx.fn(BQ + name, 1)
            sm = ctx.run(f, [A0], bound=BI | {EM + '::' + name})
            orders[name] = sequence(ctx, name, sm, [(EM + '::' + name, this.m_extensionManager, None), (cq(name + '_impl'), this, None)], loc(f))
        mirrored(ctx, 'serialization', orders, loc(f))
        f = ctx.fn(BQ + 'getExtensionManager', 0)
        ctx.same('getExtensionManager', ctx.run(f, []).ret, this.m_extensionManager, loc(f))
    for std in STDS:
        with ctx.guard(std + ' device'):
            one_device(ctx, std)
            n += 1
    return dict(explain='%d device facades: every public operation of a device is compared with the operation of its core and interface it has to delegate to (once, with the same arguments), the aggregate results with the sums and maxima required' % n,
                assumptions=['the two parts (core, interface) and the energy calculations satisfy the other properties'], floor=150)


def carried(ctx, key, std, sm, e, where):
    """the command is handed on unchanged (LPDDR6: converted)"""
    got = e.d['args'][0]
    if std != 'LPDDR6':
        ctx.same(key + ' command', got, A0, where)
        return
    p = lambda *path: at(sm, got, path)
    for k in ('timestamp', 'type', 'data', 'sz_bits'):
        ctx.same(key + ' command ' + k, p(k), getattr(A0, k), where)
    for k in ('bank', 'bankGroup', 'rank', 'row', 'column'):
        ctx.same(key + ' command ' + k, p('targetCoordinate', k), getattr(A0.targetCoordinate, k), where)


def one_device(ctx, std):
    q = D + std + '::'
    cq, iq = D + std + 'Core::', D + std + 'Interface::'
    for name, part, m in (('doCoreCommandImpl', cq, this.m_core), ('doInterfaceCommandImpl', iq, this.m_interface)):
        f = ctx.fn(q + name, 1)
        sm = ctx.run(f, [A0], bound=frozenset([cq + 'doCommand', iq + 'doCommand']))
        sequence(ctx, std + ' ' + name, sm, [(part + 'doCommand', m, None)], loc(f))
        for e in calls(sm, {part + 'doCommand'}):
            carried(ctx, std + ' ' + name, std, sm, e, loc(f))
    f = ctx.fn(q + 'getLastCommandTime_impl', 0)
    a, b = this.m_core.m_last_command_time, this.m_interface.m_last_command_time
    ctx.same(std + ' last command time', ctx.run(f, []).ret, If(a < b, b, a), loc(f))
    f = ctx.fn(q + 'getCLIArchitectureConfig', 0)
    sm = ctx.run(f, [])
    for k, v in (('deviceCount', 'numberOfDevices'), ('rankCount', 'numberOfRanks'), ('bankCount', 'numberOfBanks')):
        ctx.same('%s architecture %s' % (std, k), at(sm, sm.ret, (k,)), getattr(this.m_memSpec, v), loc(f))
    f = ctx.fn(q + 'isSerializable', 0)
    z = ctx.run(f, []).ret
    ctx.same(std + ' serializable without pending commands', X(truth(T(z))), X(eq(('size', T(this.m_core.m_implicitCommandHandler.m_implicitCommandList)), ZERO)), loc(f))
    for name, cl, fn in (('calcCoreEnergyStats', 'Calculation_' + std, 'calcEnergy'), ('calcInterfaceEnergyStats', 'InterfaceCalculation_' + std, 'calculateEnergy')):
        f = ctx.fn(q + name, 1)
        cn = D + cl + '::' + fn
        sm = ctx.run(f, [A0], bound=frozenset([cn]))
        sequence(ctx, '%s %s' % (std, name), sm, [(cn, None, [A0])], loc(f))
        ev = calls(sm, {cn})
        if len(ev) == 1:
            if ev[0].d.get('res') is not None:
                ctx.same('%s %s result' % (std, name), sm.ret, ev[0].d['res'], loc(f))
            o = ev[0].d.get('objval') or ev[0].d['obj']
            cf = [x for x in ctx.fns_of('^%s::%s$' % (D + cl, cl)) if len(x['params']) == 1 and (x['params'][0].get('t') or {}).get('t', '').find('MemSpec') >= 0]
            if not cf:
                ctx.ob('%s %s specification' % (std, name), None, 'constructor of the calculation not found', loc(f))
                continue
            C = S('calculation')
            cs = ctx.run(cf[0], [this.m_memSpec], C.t)
            for k in cs.final():
                if prefix(C.t, k) and k[0] == 'f' and k[1] == C.t and cs.get(k)[0] not in ('agg', 'undef'):
                    ctx.same('%s %s specification %s' % (std, name, k[2]), at(sm, o, (k[2],)), cs.get(k), loc(f))
    f = ctx.fn(q + 'getWindowStats', 1)
    ws = frozenset([cq + 'getWindowStats', iq + 'getWindowStats'])
    sm = ctx.run(f, [A0], bound=ws)
    got = calls(sm, ws)
    ctx.ob(std + ' window statistics: both parts once', sorted(e.d['q'] for e in got) == sorted(ws), 'calls ' + ', '.join(e.d['q'] for e in got), loc(f))
    for e in got:
        part = this.m_core if e.d['q'] == cq + 'getWindowStats' else this.m_interface
        k = '%s window statistics %s' % (std, 'core' if part is not None and T(part) == T(this.m_core) else 'interface')
        ctx.ob(k + ' object', e.d['obj'] == T(part), 'object ' + show(e.d['obj']), loc(f))
        ctx.same(k + ' timestamp', e.d['args'][0], A0, loc(f))
        ctx.same(k + ' unconditional', X(e.guard()), True, loc(f))
    orders = {}
    for name in ('serialize', 'deserialize'):
        f = ctx.fn(q + name + '_impl', 1)
        bs = frozenset([cq + name, iq + name])
        sm = ctx.run(f, [A0], bound=bs)
        orders[name] = sequence(ctx, '%s %s' % (std, name), sm, [(cq + name, this.m_core, None), (iq + name, this.m_interface, None)], loc(f), bs)
    mirrored(ctx, std + ' serialization', orders, loc(f))
    # construction: both parts are those built from the very specification and configuration given
    l = [f for f in ctx.fns_of('^%s%s$' % (q, std)) if len(f['params']) == 2]
    if not l:
        raise AnalysisBroken('constructor not found: ' + std)
    f = l[0]
    reg = frozenset([q + 'registerExtensions'])
    sm = ctx.run(f, [A0, A1], bound=reg)
    ctx.same(std + ' constructor memory specification', sm.get(T(this.m_memSpec)), A0, loc(f))
    has_reg = ctx.fn(q + 'registerExtensions', 0, must=False) is not None
    ctx.ob(std + ' constructor registers the extensions', len(calls(sm, reg)) == (1 if has_reg else 0), 'registerExtensions called %d times' % len(calls(sm, reg)), loc(f))
    for part, m, args in (('Core', this.m_core, 1), ('Interface', this.m_interface, 2)):
        pf = [x for x in ctx.fns_of('^%s%s%s::%s%s$' % (D, std, part, std, part)) if len(x['params']) in (args, args + 1)]
        if not pf:
            raise AnalysisBroken('constructor not found: ' + std + part)
        pf = sorted(pf, key=lambda x: len(x['params']))
        pm = ctx.run(pf[0], [A0, A1, X(TRUE)][:len(pf[0]['params'])], T(m))
        for k in pm.final():
            if k[0] == 'forall' or not prefix(T(m), k) or len(repr(k)) > 400:
                continue
            w = pm.get(k)
            if w[0] in ('agg', 'undef'):
                continue
            if w[0] == 'lam':
                g = sm.get(k)
                ctx.ob('%s constructor %s' % (std, show(k)), g[0] == 'lam' and g[1] == w[1], show(g)[:300], loc(f))
                continue
            u = lambda t: rewrite(t, lambda x: ('s', 'indeterminate') if x[0] == 'undef' else None)
            ctx.same('%s constructor %s' % (std, show(k)), u(sm.get(k)), u(w), loc(f))


# ------------------------------------------------------------------------------------------------ extensions
def extensions(ctx):
    X_ = D + 'extensions::'
    with ctx.guard('DBI extension'):
        f = ctx.fn(X_ + 'DBI::enable', 2)
        sm = ctx.run(f, [A0, A1])
        cb = [e for e in sm.events if e.kind == 'call' and e.d['q'].startswith('std::function')]
        ctx.ob('DBI enable: one callback call', len(cb) == 1, '%d calls' % len(cb), loc(f))
        if len(cb) == 1:
            ctx.same('DBI enable: callback called when set', X(cb[0].guard()), has(this.m_callback), loc(f))
            for i, a in ((0, A0), (1, A1)):
                ctx.same('DBI enable: callback argument %d' % i, cb[0].d['args'][i], a, loc(f))
            r = X(truth(cb[0].d['res'])) if cb[0].d.get('res') is not None else None
            if r is not None:
                ok = ~has(this.m_callback) | r
                ctx.same('DBI enable: result', X(truth(T(sm.ret))), ok, loc(f))
                ctx.same('DBI enable: state', X(truth(sm.get(T(this.m_enabled)))), If(ok, X(truth(T(A1))), X(truth(T(this.m_enabled)))), loc(f))
        f = ctx.fn(X_ + 'DBI::isEnabled', 0)
        ctx.same('DBI isEnabled', ctx.run(f, []).ret, this.m_enabled, loc(f))
        for f in [f for f in ctx.fns_of('^%sDBI::DBI' % X_) if len(f['params']) == 2]:
            sm = ctx.run(f, [A0, A1])
            ctx.same('DBI extension: initial state', sm.get(T(this.m_enabled)), A1, loc(f))
            ctx.same('DBI extension: callback kept', X(truth(sm.eng.has(sm.get(T(this.m_callback))))), True, loc(f))
    with ctx.guard('meta data extension'):
        f = ctx.fn(X_ + 'MetaData::setMetaData', 2)
        sm = ctx.run(f, [A0, A1])
        cb = [e for e in sm.events if e.kind == 'call' and e.d['q'].startswith('std::function')]
        ctx.ob('setMetaData: one callback call', len(cb) == 1, '%d calls' % len(cb), loc(f))
        if len(cb) == 1:
            g = cb[0].guard()
            ctx.ob('setMetaData: callback object', cb[0].d['obj'] == T(this.m_set_callback), show(cb[0].d['obj']), loc(f))
            for i, a in ((0, A0), (1, A1)):
                ctx.same('setMetaData: callback argument %d' % i, cb[0].d['args'][i], a, loc(f))
                ctx.same('setMetaData: stored value %d' % i, tup(sm, sm.get(T(this.m_metadata)), i), If(X(g), a, X(tup(sm, T(this.m_metadata), i))), loc(f))
        f = ctx.fn(X_ + 'MetaData::getMetaData', 0)
        sm = ctx.run(f, [])
        cb = [e for e in sm.events if e.kind == 'call' and e.d['q'].startswith('std::function')]
        ctx.ob('getMetaData: one callback call', len(cb) == 1, '%d calls' % len(cb), loc(f))
        if len(cb) == 1:
            ctx.ob('getMetaData: callback object', cb[0].d['obj'] == T(this.m_get_callback), show(cb[0].d['obj']), loc(f))
            if cb[0].d.get('res') is not None:
                ctx.same('getMetaData: result', sm.ret, If(X(cb[0].guard()), X(cb[0].d['res']), this.m_metadata), loc(f))
        for f in [f for f in ctx.fns_of('^%sMetaData::MetaData' % X_) if len(f['params']) == 3]:
            sm = ctx.run(f, [A0, A1, A2])
            ctx.same('meta data extension: initial state', sm.get(T(this.m_metadata)), A2, loc(f))
    for std in STDS:
        with ctx.guard(std + ' extensions'):
            registered(ctx, std)
    with ctx.guard('extension manager'):
        manager(ctx)
    with ctx.guard('hooks'):
        hooks(ctx)
    with ctx.guard('static extension manager'):
        static_manager(ctx)
    return dict(explain='extension objects, the extensions every device registers (their callbacks interpreted with the captured device), the dynamic and the static extension manager (instantiated by units/inst.cpp) and the hook dispatch for each of the 64 hook bits',
                assumptions=['each extension type is registered at most once per manager', 'std::make_shared constructs the named extension with the given arguments; std::type_index identifies types'], floor=150)


def registered(ctx, std):
    q = D + std + '::'
    f = ctx.fn(q + 'registerExtensions', 0, must=False)
    if f is None:
        ctx.ob(std + ' registers no extension', std == 'DDR5', 'registerExtensions not found', '')
        return
    REG = U + 'extension_manager::ExtensionManager::registerExtension'
    EN = D + std + 'Interface::enableDBI'
    sm = ctx.run(f, [], bound=frozenset([REG]))
    regs = [e for e in sm.events if e.kind == 'call' and strip_targs(e.d['q']) == REG]
    where = loc(f)
    if not regs:
        return ctx.ob(std + ' registered extensions', None, 'registration not recognised', where)
    by = {}
    for e in regs:
        m = [k for k in ('DBI', 'MetaData') if 'extensions::' + k in (e.d.get('full') or e.d.get('targs') or repr(e.d))]
        by.setdefault(m[0] if m else '?', []).append(e)
    want = ['DBI'] + (['MetaData'] if std == 'LPDDR6' else [])
    ctx.ob(std + ' registered extensions', sorted(by) == sorted(want) and all(len(l) == 1 for l in by.values()), 'registered: %s ; required %s' % (sorted(by), want), where)
    for k, l in by.items():
        for e in l:
            ctx.same('%s %s registered unconditionally' % (std, k), X(e.guard()), True, where)
            ctx.ob('%s %s registered with the manager of the device' % (std, k), e.d['obj'] == T(this.m_extensionManager), show(e.d['obj']), where)
    if 'DBI' in by:
        e = by['DBI'][0]
        lam, init = e.d['args'][0], e.d['args'][1]
        ctx.same(std + ' DBI initially disabled', X(truth(init)), False, where)
        ls = run_lambda(ctx, lam, [A0, A1], frozenset([EN]))
        if ls is None:
            return ctx.ob(std + ' DBI callback', None, 'callback not understood', where)
        en = [x for x in ls.events if x.kind == 'call' and x.d['q'] == EN]
        for w in (4, 8, 16):
            for on in (True, False):
                sub = lambda t: rewrite(T(t), {T(this.m_memSpec.bitWidth): N(w), T(A1): T(on)}.get)
                k = '%s DBI callback x%d %s ' % (std, w, 'on' if on else 'off')
                ok = not (std == 'DDR4' and w == 4)
                act = [x for x in en if sub(x.guard()) != FALSE]
                ctx.ob(k + 'switches the interface', len(act) == ok, 'enableDBI called at %d places' % len(act), where)
                for x in act:
                    ctx.same(k + 'guard', X(sub(x.guard())), True, where)
                    ctx.same(k + 'value', X(truth(sub(x.d['args'][0]))), on, where)
                    ctx.ob(k + 'object', x.d['obj'] == T(this.m_interface), show(x.d['obj']), where)
                ctx.same(k + 'result', X(truth(sub(ls.ret))), ok, where)
    if 'MetaData' in by:
        e = by['MetaData'][0]
        SET, GET = D + 'LPDDR6Interface::setMetaData', D + 'LPDDR6Interface::getMetaData'
        b = frozenset([SET, GET])
        ls = run_lambda(ctx, e.d['args'][0], [A0, A1], b)
        sequence(ctx, std + ' set meta data', ls, [(SET, this.m_interface, [A0, A1])], where, b)
        lg = run_lambda(ctx, e.d['args'][1], [], b)
        sequence(ctx, std + ' get meta data', lg, [(GET, this.m_interface, [])], where, b)
        for i in (0, 1):
            ctx.same(std + ' meta data initial value %d' % i, tup(sm, e.d['args'][2], i), this.m_interface.m_formatter.m_metaData[i], where)


def slot(ty):
    return ('i', T(this.m_extensions), ('c', 'ctor:std::type_index', None, (('typeid', ty),)))


def manager(ctx):
    EM = U + 'extension_manager::ExtensionManager<'
    for base, ty, short in ((D + 'extensions::Base', D + 'extensions::DBI', 'DBI'), (D + 'extensions::Base', D + 'extensions::MetaData', 'MetaData'), (D + 'UnitHookBase', D + 'UnitHookExt', 'UnitHookExt')):
        pre = EM + base + '>::'
        sl = slot(ty)
        assume = [or_(not_(('has', sl)), not_(eq(('size', T(this.m_extensions)), ZERO)))]
        for f in [f for f in ctx.byq_values() if f['q'].startswith(pre + 'registerExtension<' + ty)]:
            args = [A0, A1, A2][:len(f['params'])]
            sm = ctx.run(f, args)
            mk = [e for e in sm.events if e.kind == 'call' and e.d['q'] == 'std::make_shared']
            ctx.ob(short + ' registration makes one object', len(mk) == 1, '%d objects' % len(mk), loc(f))
            if len(mk) != 1:
                continue
            for i, a in enumerate(args):
                ctx.same('%s registration argument %d' % (short, i), mk[0].d['args'][i], a, loc(f))
            obj = ('c', 'std::make_shared', None, tuple(mk[0].d['args']))
            fin = sm.get(T(this.m_extensions))
            if fin[0] == 'm' and fin[1] in ('emplace', 'try_emplace', 'insert_or_assign') and fin[2] == T(this.m_extensions) and len(fin[3]) == 2:
                ctx.same(short + ' registration type', X(eq(fin[3][0], sl[2])), True, loc(f))
                ctx.same(short + ' registration object', fin[3][1], obj, loc(f))
                ctx.effects(short + ' registration', sm, {this.m_extensions: fin, this.m_serStorage: ('m', 'push_back', T(this.m_serStorage), (obj,))}, loc(f))
                continue
            ctx.effects(short + ' registration', sm, {sl: obj, this.m_serStorage: ('m', 'push_back', T(this.m_serStorage), (obj,))}, loc(f))
        for f in [f for f in ctx.byq_values() if f['q'] == pre + 'getExtension<' + ty + '>']:
            sm = ctx.run(f, [])
            r = rewrite(sm.ret, lambda x: x[3][0] if x[0] == 'c' and x[1] == 'std::static_pointer_cast' else None)
            ctx.same(short + ' lookup', r, If(X(('has', sl)), X(sl), X(('null',))), loc(f), assume)
        for f in [f for f in ctx.byq_values() if f['q'] == pre + 'hasExtension<' + ty + '>']:
            ctx.same(short + ' presence', ctx.run(f, []).ret, X(('has', sl)), loc(f), assume)
        for f in [f for f in ctx.byq_values() if f['q'].startswith(pre + 'withExtension<' + ty)]:
            sm = ctx.run(f, [A0])
            v = [e for e in sm.events if e.kind == 'call' and 'Visitor' in e.d['q']]
            ctx.ob(short + ' visit: one call', len(v) == 1, '%d calls' % len(v), loc(f))
            if len(v) == 1:
                ctx.same(short + ' visited when registered', X(v[0].guard()), X(('has', sl)), loc(f), assume)
                a = rewrite(v[0].d['args'][0], lambda x: x[3][0] if x[0] == 'c' and x[1] == 'std::static_pointer_cast' else None)
                ctx.same(short + ' visited object', a, X(('d', sl)), loc(f))
        for name in ('serialize', 'deserialize'):
            f = ctx.fn(pre + name, 1)
            sm = ctx.run(f, [A0])
            ev = [e for e in sm.events if e.kind == 'call' and e.d['q'].rsplit('::', 1)[1] == name and len(e.loops()) == 1]
            ctx.ob('%s %s: every extension once, in order of registration' % (short, name), len(ev) == 1 and T(ev[0].loops()[0][2]) == ('rng', ZERO, ('size', T(this.m_serStorage))), 'calls: %s' % [(e.d['q'], show(e.d['obj'])) for e in ev], loc(f))
            for e in ev:
                o = rewrite(e.d['obj'], lambda x: x[2] if x[0] == 'c' and x[1] == 'std::weak_ptr::lock' else None)
                ctx.same('%s %s object' % (short, name), o, X(('d', ('i', T(this.m_serStorage), e.loops()[0][1]))), loc(f))


def hooks(ctx):
    pre = U + 'extension_manager::ExtensionManagerWithHooks<DRAMPower::UnitHookBase, DRAMPower::UnitHooks>::'
    f = ctx.fn(pre + 'ExtensionManagerWithHooks', 0)
    sm = ctx.run(f, [])
    ctx.same('hooks: one list per hook bit', X(sm.eng.size(sm.get(T(this.m_hookCache)))), 64, loc(f))
    f = ctx.fn(pre + 'getHookPosition', 1)
    for k in range(64):
        ctx.same('hooks: position of hook %d' % k, ctx.run(f, [X(N(2 ** k))], concrete=70).ret, k, loc(f))
    f = ctx.fn(pre + 'updateHookCache', 1)
    sm = ctx.run(f, [A0])
    cast = lambda t: rewrite(t, lambda x: x[3][0] if x[0] == 'c' and x[1] in ('std::dynamic_pointer_cast', 'std::static_pointer_cast') else None)
    lists = [e for e in sm.events if e.kind == 'mut' and e.d.get('method') in ('push_back', 'emplace_back')]
    ctx.ob('hooks: one list insertion', len(lists) == 1, '%d insertions' % len(lists), loc(f))
    hk = ('f', ('d', T(A0)), 'hooks')
    for e in lists:
        ix = e.loops()[0][1] if e.loops() else None
        ctx.ob('hooks: all lists considered', len(e.loops()) == 1 and e.loops()[0][2] == ('rng', ZERO, ('size', T(this.m_hookCache))), str(e.loops())[:200], loc(f))
        if ix is None:
            continue
        ctx.ob('hooks: list of the bit', e.d['loc'] == ('i', T(this.m_hookCache), ix), show(e.d['loc']), loc(f))
        ctx.same('hooks: the extension is listed', cast(e.d['args'][0]), A0, loc(f))
        for k in range(64):
            sub = lambda t: cast(rewrite(t, {ix: N(k)}.get))
            for h in (0, 2 ** k, (2 ** 64 - 1) ^ 2 ** k, 2 ** 63, 1, 2 ** 32, 2 ** 31, 2 ** 40 | 2 ** 8):
                g = rewrite(sub(e.guard()), lambda x: N(h) if x == hk or (x[0] == 'c' and x[1].endswith('getSupportedHooks')) else FALSE if x == eq(T(A0), ('null',)) or x == eq(T(A0), ZERO) else None)
                ctx.same('hooks: hook %d listed for mask %#x' % (k, h), X(g), bool(h >> k & 1), loc(f))
    for e in [e for e in sm.events if e.kind == 'shift']:
        ctx.same('hooks: every list index can be shifted (64 lists)', X(N(e.d['width'])) >= 64, True, loc(f))
    f = [f for f in ctx.byq_values() if f['q'].startswith(pre + 'callHook<')]
    if not f:
        raise AnalysisBroken('callHook not instantiated')
    f = f[0]
    for k in (0, 1, 31, 32, 63):
        sm = ctx.run(f, [X(N(2 ** k)), A1], concrete=70)
        v = [e for e in sm.events if e.kind == 'call' and 'Visitor' in e.d['q']]
        ctx.ob('hooks: call of hook %d' % k, len(v) == 1 and len(v[0].loops()) == 1, '%d calls' % len(v), loc(f))
        for e in v[:1]:
            if len(e.loops()) != 1:
                continue
            l = ('i', T(this.m_hookCache), N(k))
            ctx.ob('hooks: call of hook %d covers its list' % k, e.loops()[0][2] == ('rng', ZERO, ('size', l)), show(e.loops()[0][2]) if isinstance(e.loops()[0][2], tuple) else '', loc(f))
            ctx.same('hooks: call of hook %d passes the extension' % k, rewrite(e.d['args'][0], lambda x: x[1] if x[0] == 'lc' else None), X(('d', ('i', l, e.loops()[0][1]))), loc(f))
            ctx.same('hooks: call of hook %d happens' % k, rewrite(e.guard(), {('size', T(this.m_hookCache)): N(64)}.get), True, loc(f))
    f = [f for f in ctx.byq_values() if f['q'].startswith(pre + 'registerExtension<')]
    if f:
        sm = ctx.run(f[0], [], bound=frozenset([strip_targs(pre) + 'updateHookCache']))
        up = [e for e in sm.events if e.kind == 'call' and e.d['q'].endswith('updateHookCache')]
        mk = [e for e in sm.events if e.kind == 'call' and e.d['q'] == 'std::make_shared']
        ctx.ob('hooks: registration updates the lists once', len(up) == 1 and len(mk) == 1, '%d updates' % len(up), loc(f[0]))
        if len(up) == 1 and len(mk) == 1:
            ctx.same('hooks: the registered extension is listed', up[0].d['args'][0], ('c', 'std::make_shared', None, tuple(mk[0].d['args'])), loc(f[0]))


UNIT = (('UnitStatic<0, 1>', 1), ('UnitStatic<1, 9223372036854775809>', 1 << 63 | 1), ('UnitStatic<2, 1099511627776>', 1 << 40))


def static_manager(ctx):
    pre = U + 'extension_manager_static::StaticExtensionManager<'
    n = 0
    for f in [f for f in ctx.byq_values() if f['q'].startswith(pre)]:
        q = f['q']
        tail = q[q.index('DRAMPower::UnitHooks>::') + 23:] if 'DRAMPower::UnitHooks>::' in q else ''
        if tail.startswith('callHook<'):
            a = tail[9:]
            h = 1 if a.startswith('DRAMPower::UnitHooks::First') else 1 << 63 if a.startswith('DRAMPower::UnitHooks::Last') else int(re.match(r'\(DRAMPower::UnitHooks\)(\d+)', a).group(1))
            sm = ctx.run(f, [A0])
            v = [e for e in sm.events if e.kind == 'call' and 'Visitor' in e.d['q']]
            want = [('f', T(this.m_extensions), str(i)) for i, (_, m) in enumerate(UNIT) if m & h]
            ctx.ob('static hooks: hook %#x reaches the extensions supporting it' % h, [e.d['args'][0] for e in v] == want, 'called for %s ; required %s' % ([show(e.d['args'][0]) for e in v], [show(w) for w in want]), loc(f))
            n += 1
        elif tail.startswith('hasExtension<'):
            ctx.same('static presence ' + tail[13:-1], X(truth(T(ctx.run(f, []).ret))), any(tail[13:-1].endswith(t) for t, _ in UNIT), loc(f))
            n += 1
        elif tail.startswith('getExtension<'):
            r = ctx.run(f, []).ret
            ctx.ob('static lookup ' + tail[13:-1], T(r) == ('f', T(this.m_extensions), 'alt:' + tail[13:-1]), show(r), loc(f))
            n += 1
    ctx.ob('static extension manager instantiated', n >= 6 or None, '%d functions' % n, '')
