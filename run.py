#!/usr/bin/env python3
"""Entry point of the checks.

    run.py C01 [--tier quick|thorough] [--seed N] [--jobs N] [--count N] [--only I]
    run.py replay replays/C01-xxxx.json
    run.py setup
"""
import argparse
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'PYTHONHASHSEED': '0',
       'PYTHONDONTWRITEBYTECODE': '1', 'SIM_STAGE': '1'}


def is_c10(argv):
    """True for the check that needs the instrumented modules."""
    if argv[1:2] == ['replay']:
        import json
        with open(argv[2]) as f:
            return json.load(f)['property'] == 'C10'
    return argv[1:2] and argv[1].upper() == 'C10'


def stage0():
    if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != '/opt/venv':
        os.execv(PY, [PY]+sys.argv)
    sys.path.insert(0, ROOT)
    from sim import build
    try:
        d = build.ensure()
    except build.BuildError as e:
        print(e)
        sys.exit(2)
    if sys.argv[1:2] == ['setup']:
        from sim import ompbuild
        ompbuild.ensure(d)
        print('setup: built in %s' % d)
        return
    env = dict(os.environ, **ENV)
    env['PYTHONPATH'] = d+os.pathsep+ROOT
    env['SIM_BUILD'] = d
    if is_c10(sys.argv):
        from sim import ompbuild
        try:
            o = ompbuild.ensure(d)
        except Exception as e:
            print('the instrumented modules do not build: %s' % e)
            sys.exit(2)
        env['SIM_OMP'] = o
        env['PYTHONPATH'] = o+os.pathsep+ROOT
    os.execve(PY, [PY, '-W', 'ignore', os.path.abspath(__file__)]+sys.argv[1:], env)


def stage1():
    sys.path.insert(0, ROOT)
    from sim import lapack
    lapack.install(os.environ['SIM_BUILD'])
    if os.environ.get('SIM_OMP'):
        from sim import ompbuild
        ompbuild.load(os.environ['SIM_OMP'])
    import qmeq
    assert qmeq.__file__.startswith(os.environ['SIM_BUILD']), qmeq.__file__
    from sim import runner
    if sys.argv[1] == 'replay':
        return runner.replay(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 8)
    ap.add_argument('--count', type=int)
    ap.add_argument('--only', type=int)
    a = ap.parse_args()
    return runner.main_check(a.prop.upper(), a.tier, a.seed, a.jobs, a.count, a.only)


if __name__ == '__main__':
    if os.environ.get('SIM_STAGE') != '1':
        stage0()
    else:
        sys.exit(stage1())
