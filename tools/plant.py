#!/usr/bin/env python3
"""Tries planted bugs in scratch copies: plant.py ID[,ID...] [--checks C01,C02] [--no-tests]

For each /verif/seeded/ID: copies /repo to /tmp/plant/ID, applies the patch, builds, runs the repository's tests, runs the
demonstration on both trees and the checks (default: the one of meta.json) on the patched tree. The copy is removed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SUF = '.cpython-312-x86_64-linux-gnu.so'


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(pid, checks, tests):
    src = os.path.join(ROOT, 'seeded', pid)
    meta = json.load(open(os.path.join(src, 'meta.json')))
    d = '/tmp/plant/'+pid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh(['cp', '-a', '/repo', d])
    out = [pid, meta['property']]
    try:
        r = sh(['git', 'apply', os.path.join(src, 'patch.diff')], cwd=d)
        if r.returncode:
            return out+['patch does not apply: '+r.stdout]
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD='/tmp/plant/build-'+pid, OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        env.pop('SIM_STAGE', None)
        r = sh([PY, os.path.join(ROOT, 'sim', 'build.py')], env=env)
        b = r.stdout.strip().splitlines()[-1]
        if r.returncode:
            return out+['does not build: '+r.stdout[-1500:]]
        for p, _, fs in os.walk(b):
            for f in fs:
                if f.endswith(SUF):
                    shutil.copyfile(os.path.join(p, f), os.path.join(d, os.path.relpath(p, b), f))
        if tests:
            r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'qmeq/tests'], cwd=d, env=env)
            out.append('tests:%s' % ('ok' if '77 passed' in r.stdout and r.returncode == 0 else r.stdout[-800:]))
        demo = '/tmp/plant/demo-'+pid
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        for name, cwd in (('clean', '/repo'), ('patched', d)):
            r = sh(['bash', os.path.join(demo, 'demo.sh')], cwd=cwd, timeout=300, env=env)
            ok = (r.returncode == 0) == (name == 'clean')
            out.append('demo %s:%s' % (name, 'ok' if ok else 'BAD rc=%d %s' % (r.returncode, r.stdout[-500:])))
        shutil.rmtree(demo, ignore_errors=True)
        for c in checks or [meta['property']]:
            r = sh([PY, os.path.join(ROOT, 'run.py'), c], env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('%s:%s' % (c, 'CAUGHT' if v and r.returncode == 1 else 'missed rc=%d %s' %
                                  (r.returncode, r.stdout[-300:] if r.returncode not in (0, 1) else '')))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree('/tmp/plant/build-'+pid, ignore_errors=True)
    return out


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('ids')
    ap.add_argument('--checks')
    ap.add_argument('--no-tests', action='store_true')
    a = ap.parse_args()
    for pid in (sorted(os.listdir(os.path.join(ROOT, 'seeded'))) if a.ids == 'all' else a.ids.split(',')):
        print(' | '.join(one(pid, a.checks.split(',') if a.checks else None, not a.no_tests)), flush=True)
