#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current source."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.dont_write_bytecode = True
import core
import loader
from rules import REGISTRY


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod, fn = REGISTRY[prop].split(':')
    try:
        m = loader.load(mod, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa', 'rules'))
        ctx = core.Ctx(prop, tier, seed)
        info = dict(explain='the rule stopped early', floor=10)
        with ctx.guard(fn):
            info = getattr(m, fn)(ctx)
        return core.finish(ctx, info.get('level', 'other'), info['explain'], info.get('assumptions', []), info['floor'], t0)
    except (core.AnalysisBroken, core.Limit) as x:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, x))
        return 2


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
