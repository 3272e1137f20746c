#!/usr/bin/env python3
"""check.py Cnn [--tier quick|thorough] [--seed N] [--cases N] [-v]
check.py --replay FILE
"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': '/opt/venv/mplconfig',
       'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'LANG': 'C.UTF-8'}


def reexec():
    env = dict(os.environ)
    env.update(ENV)
    env['PYTHONHASHSEED'] = os.environ.get('PLYSIM_HASHSEED', '0')
    env['PLYSIM_BOOTED'] = '1'
    env.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.join(ROOT, 'check.py')] + sys.argv[1:], env)


def checks(pid):
    import importlib
    from sim import world
    world.boot()
    mod = importlib.import_module('sim.checks.' + pid.lower())
    return mod.CHECK


def main():
    if os.environ.get('PLYSIM_BOOTED') != '1':
        reexec()
    sys.path.insert(0, ROOT)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--json', action='store_true')
    ap.add_argument('--logs')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from sim import runner
    try:
        if a.replay:
            return runner.replay(checks, a.replay, a.json)
        return runner.main(checks(a.pid), a.tier, a.seed, a.cases, a.workers, a.v,
                           a.logs)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
