"""python -m rv.run Cxx [--tier quick|thorough] [--replay file]"""
import importlib
import json
import logging
import os
import sys


def scenarios(mod, run):
    table = mod.scenarios(run)
    names = getattr(mod, 'TOGETHER', ())
    if names:
        from rv import sched
        both = {k: table[k][0] for k in names}
        table['together'] = (lambda r, rng: sched.together(r, rng, both), *getattr(mod, 'TIMES', (400, 8000)))
        run.require(together=table['together'][1] * 3 // 4)
    return table


def main():
    import argparse
    for f in (sys.stdout, sys.stderr):      # what is reported may be text no encoding has
        f.reconfigure(errors='backslashreplace')
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    from rv import core
    logging.disable(logging.CRITICAL)
    import oidcmsg
    where = os.path.realpath(oidcmsg.__file__)
    if not where.startswith(os.path.realpath(core.SRC)):
        print('INCONCLUSIVE: oidcmsg imported from %s, not %s' % (where, core.SRC))
        return 2
    mod = importlib.import_module('rv.checks.' + a.pid.lower())
    if a.replay:
        data = json.load(open(a.replay))
        run = core.Run(a.pid, data['tier'], data['seed'])
        table = scenarios(mod, run)
        for v in data['violations']:
            if v['scenario'] in table:
                run.one(v['scenario'], table[v['scenario']][0], v['index'])
        run.need.clear()
        return run.finish()
    run = core.Run(a.pid, a.tier, a.seed)
    if hasattr(mod, 'setup'):
        mod.setup(run)
    run.drive({name: (fn, thorough if run.thorough else quick) for name, (fn, quick, thorough) in scenarios(mod, run).items()},
              700 if run.thorough else 240)
    if hasattr(mod, 'teardown'):
        mod.teardown(run)
    return run.finish()


if __name__ == '__main__':
    sys.exit(main())
