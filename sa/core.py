"""Check framework: obligations, verdicts, evidence, known findings."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts as factsmod
from facts import AnalysisBroken
from engine import Engine, Limit, Summary, strip_targs
from terms import *
import ri
import spec
from spec import X, T

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Guard:
    """a part of a rule that cannot be analysed becomes one undecided obligation"""

    def __init__(self, ctx, key, gathers=False):
        self.ctx, self.key, self.gathers = ctx, key, gathers

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, Exception):
            return False
        last = traceback.extract_tb(tb)[-1]
        self.ctx.crashed += 1
        # what the loop collects for later is incomplete: nothing is called a violation because of it
        self.ctx.incomplete += self.gathers
        self.ctx.obs.append((self.key + ': part of the rule not applicable to this form of the code', None, '%s: %s (%s:%s)' % (et.__name__, str(ev)[:300], os.path.basename(last.filename), last.lineno), ''))
        return True


class Scope:
    """body of a part of a rule: incomplete data stays inside"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.old = self.ctx.incomplete

    def __exit__(self, et, ev, tb):
        self.ctx.incomplete = self.old
        return False


class Ctx:
    """collects the obligations of one property"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.F = factsmod.load()
        self.repo = factsmod.REPO
        self.obs = []           # (key, verdict, text, where)
        self.fns = set()
        self.notes = []
        self.byq = {}
        for f in self.F.functions.values():
            self.byq.setdefault(f['q'], []).append(f)
        self.bys = {}
        for q, l in self.byq.items():
            self.bys.setdefault(strip_targs(q), []).extend(l)
        self.cache = {}
        self.crashed = 0
        self.incomplete = 0

    def guard(self, key, gathers=False):
        return Guard(self, key, gathers)

    def scope(self):
        return Scope(self)

    # -- lookup
    def fn(self, q, n=None, pick=None, must=True):
        l = [f for f in self.byq.get(q, []) if f.get('body') is not None or f.get('ctor')]
        if n is not None:
            l = [f for f in l if len(f['params']) == n]
        if pick:
            l = [f for f in l if pick(f)]
        if not l and must:
            raise AnalysisBroken('anchor not found: %s' % q)
        return l[0] if l else None

    def byq_values(self):
        return [f for l in self.byq.values() for f in l if f.get('body') is not None or f.get('ctor')]

    def fns_of(self, rx):
        import re
        r = re.compile(rx)
        return [f for f in self.F.functions.values() if r.search(f['q']) and (f.get('body') is not None or f.get('ctor'))]

    def rec(self, q):
        r = self.F.records.get(q)
        if r is None:
            raise AnalysisBroken('record not found: %s' % q)
        return r

    def run(self, fn, args=None, this=('s', 'this'), **kw):
        args = None if args is None else [T(a) for a in args]
        key = (fn['f'], repr(args), repr(this), tuple(sorted((k, repr(v)) for k, v in kw.items())))
        if key not in self.cache:
            e = Engine(self.F, **{k: v for k, v in kw.items() if k not in ('pre',)})
            self.cache[key] = e.run(fn, args, this, pre=kw.get('pre'))
            self.fns.add(fn['q'])
            self.fns |= {x for x in self.cache[key].inlined}
        return self.cache[key]

    def call(self, fn, this=('s', 'this'), **kw):
        """run with canonical argument names a0, a1, ..."""
        return self.run(fn, [('s', 'a%d' % i) for i in range(len(fn['params']))], this, **kw)

    def effects(self, key, sm, want, where='', assume=(), rw=None, ignore=()):
        """the non-local locations written are exactly those of `want` (others keep their value)"""
        rw = rw or (lambda t: t)
        want = {T(k): T(v) for k, v in want.items()}
        locs = dict.fromkeys(want)
        for k in sm.final():
            if k[0] == 'forall':
                if any(prefix(T(w), k[1]) for w in list(want) + list(ignore)):
                    continue
                self.ob(key + ' writes ' + show(k[1]), self.unchanged_forall(sm, k), 'writes %s := %s' % (show(k), show(sm.state.store[k])[:300]), where)
                continue
            if any(prefix(T(w), k) for w in ignore) or any(prefix(w, k) for w in want):
                continue
            if any(prefix(k, w) for w in want) and k not in want:
                # an enclosing object is assigned: the remaining parts must be unchanged or required
                pass
            locs[k] = None
        for l in locs:
            if l not in want and any(prefix(l, w) for w in want):
                continue
            w = want.get(l, l)
            self.same('%s %s' % (key, show(l)), rw(sm.get(l)), rw(w), where, [T(a) for a in assume], 'final value of ' + show(l))

    def unchanged_forall(self, sm, k):
        v = sm.state.store[k]
        return v == k[1]

    def throws(self, key, sm, cond, where='', assume=(), rw=None, only=None):
        rw = rw or (lambda t: t)
        g = or_(*[e.guard() for e in sm.events if e.kind == 'throw' and (only is None or only(e))])
        self.same(key, rw(g), rw(T(cond)), where, [T(a) for a in assume], 'condition under which an exception is thrown')

    # -- obligations
    def ob(self, key, ok, text='', where=''):
        if ok is False and self.incomplete:
            ok = None
        self.obs.append((key, ok, text, where))
        return ok

    def same(self, key, got, want, where='', assume=(), what='value'):
        got, want, assume = T(got), T(want), [T(a) for a in assume]
        r = ri.equal(got, want, assume, self.seed)
        if r is False and (is_bool(got) or is_bool(want)):
            r = ri.equal(truth(got), truth(want), assume, self.seed)
        self.ob(key, r, '%s: found %s ; required %s' % (what, show(got)[:1500], show(want)[:1500]) if r is not True else '', where)
        return r


def finish(ctx, level, explain, assumptions, floor, t0):
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    kn = {e['key']: e for e in known.get('findings', []) if e['property'] == ctx.prop}
    bad = [o for o in ctx.obs if o[1] is False and o[0] not in kn]
    old = [o for o in ctx.obs if o[1] is False and o[0] in kn]
    und = [o for o in ctx.obs if o[1] is None]
    good = [o for o in ctx.obs if o[1] is True]
    ev = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level,
        'coverage': {
            'explanation': explain,
            'obligations': len(ctx.obs), 'discharged': len(good), 'undecided': len(und), 'known_findings': len(old),
            'functions_analysed': len(ctx.fns), 'functions_in_program': len(ctx.F.functions),
            'samples': [o[0] for o in ctx.obs[:: max(1, len(ctx.obs) // 12)]][:14],
            'undecided_list': ['%s: %s' % (o[0], o[2][:200]) for o in und[:20]],
            'notes': ctx.notes[:40],
            'checker_cmd': 'python3 check.py %s' % ctx.prop,
            'trusted_base': ['clang 18 front end (parsing, name and overload resolution, template instantiation)', 'tool/dpx.cpp fact exporter', 'sa/engine.py summariser and its standard-library models', 'stubs/ (DRAMUtils, spdlog/fmt interfaces)', 'the requirement tables in sa/rules'],
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %d functions analysed' % (ctx.prop, len(ctx.obs), len(good), len(und), len(old), len(bad), len(ctx.fns)))
    for o in und:
        print('undecided: %s [%s] %s' % (o[0], o[3], o[2][:300]))
    for o in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (ctx.prop, o[0], kn[o[0]]['what']))
    if bad:
        path = os.path.join(VERIF, 'evidence', ctx.prop + '.violation.txt')
        with open(path, 'w') as fh:
            for o in bad:
                fh.write('rule instance: %s\nwhere: %s\n%s\n\n' % (o[0], o[3], o[2]))
        for o in bad[:20]:
            print('violated: %s at %s\n    %s' % (o[0], o[3], o[2][:1200]))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
        return 1
    if len(good) + len(old) < floor * 0.3:
        raise AnalysisBroken('%s: only %d obligations discharged, expected at least %d' % (ctx.prop, len(good), floor))
    return 0


def prefix(p, l):
    while True:
        if p == l:
            return True
        if l[0] in ('f', 'i'):
            l = l[1]
        else:
            return False


def loc(fn):
    return '%s:%s %s' % (fn['file'], fn['line'], fn['q'])
