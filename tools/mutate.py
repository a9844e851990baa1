#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py [--n 50] [--seed 1] [--workers 4] [--div 6] [--files RE] [--out /tmp/mut/log.jsonl]

Small random changes of single lines of the library. Those which build and pass the repository's tests are run against the checks
(with RUNS/div simulated runs each) until one of them reports a violation. One JSON line per surviving change is written. Works
only in scratch copies below /tmp/mut.
"""
import argparse
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY = '/opt/venv/bin/python'
SUF = '.cpython-312-x86_64-linux-gnu.so'
FILES = ['specfunc/specfunc.py', 'specfunc/c_specfunc.pyx', 'approach/aprclass.py', 'approach/c_aprclass.pyx', 'approach/kernel_handler.py', 'approach/c_kernel_handler.pyx',
         'approach/base/neumann2.py', 'approach/base/c_neumann2.pyx', 'approach/base/RTD.py', 'approach/base/c_RTD.pyx',
         'approach/base/neumann1.py', 'approach/base/c_neumann1.pyx', 'approach/base/c_pauli.pyx', 'approach/base/pauli.py',
         'approach/base/c_lindblad.pyx', 'approach/base/c_redfield.pyx', 'approach/elph/c_neumann1.pyx',
         'approach/elph/neumann1.py', 'approach/elph/c_pauli.pyx', 'approach/elph/c_lindblad.pyx', 'approach/elph/c_redfield.pyx',
         'approach/elph/redfield.py', 'approach/elph/lindblad.py', 'approach/elph/pauli.py',
         'baths.py', 'leadstun.py', 'qdot.py', 'indexing.py', 'builder/builder_base.py', 'builder/builder.py',
         'builder/builder_elph.py', 'builder/various.py', 'builder/funcprop.py', 'wrappers/c_lapack.pyx',
         'specfunc/specfunc_elph.py', 'specfunc/c_specfunc_elph.pyx']
HEAVY = {'indexing.py': 0.6, 'leadstun.py': 2, 'qdot.py': 2, 'builder/various.py': 3, 'approach/aprclass.py': 3, 'baths.py': 2.5,
         'approach/c_aprclass.pyx': 2.5, 'builder/builder_base.py': 2.5, 'builder/builder_elph.py': 2}
ORDER = {'various': ['C12', 'C04', 'C02'], 'c_RTD': ['C13', 'C10'], 'neumann2': ['C08', 'C13'], 'aprclass': ['C03', 'C15', 'C06'],
         'baths': ['C01', 'C14'], '': ['C13', 'C01', 'C03', 'C04']}
ALL = ['C13', 'C01', 'C03', 'C04', 'C11', 'C08', 'C12', 'C02', 'C09', 'C05', 'C06', 'C15', 'C10', 'C16', 'C07', 'C14']


def code_lines(text):
    """Indices of the lines that hold code, outside documentation strings."""
    out, doc = [], None
    for i, l in enumerate(text.split('\n')):
        s = l.strip()
        if doc:
            if doc in s:
                doc = None
            continue
        m = re.match(r'[rR]?(""""?|\'\'\')', s)
        if m:
            q = m.group(1)[:3]
            if s.count(q) < 2:
                doc = q
            continue
        if not s or s.startswith(('#', 'import', 'from', 'cimport', '@', 'class', 'def ', 'cdef', 'cpdef', 'global')):
            continue
        out.append(i)
    return out


def mutants(line):
    s = line.strip()
    ind = line[:len(line)-len(line.lstrip())]
    out = []
    bal = all(s.count(a) == s.count(b) for a, b in ('()', '[]', '{}'))
    if bal and not s.endswith((':', ',', '\\', '+', '-', '*', '(')) and \
            not re.match(r'(if|for|while|else|elif|try|except|finally|return|raise|with|continue|break|pass|print)\b', s):
        out += [ind+'pass']*3
    m = re.match(r'(\s*)(if|elif|while) (.*):$', line)
    if m and bal:
        out += ['%s%s not (%s):' % m.groups()]
        if m.group(2) == 'if':
            out += ['%sif True:' % m.group(1), '%sif False:' % m.group(1)]
    if s in ('continue', 'break') or (s.startswith('return') and ind):
        out.append(ind+'pass')
    if s.startswith('raise') and bal:
        out.append(ind+'pass')
    subs = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' and ', ' or '),
            (r' or ', ' and '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+=', '-='), (r'\+=', '='), (r'-=', '+='), (r'\+1\b', ''),
            (r'-1\b', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\.copy\(\)', ''),
            (r'np\.array\(([\w.]+)\)', r'\1'), (r'np\.copy\(([\w.]+)\)', r'\1'), (r'\bdict\(([\w.]+)\)', r'\1'),
            (r'\blist\(([\w.]+)\)', r'\1'), (r'copy\.deepcopy\(([^()]*)\)', r'\1'),
            (r'\.conj\(\)', ''), (r'\.imag', '.real'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\bnot ', ''),
            (r'is None', 'is not None'), (r'is not None', 'is None'), (r'\*', '/'), (r'\bb\b', 'bp'), (r'\bbp\b', 'b'),
            (r'\bl\b', '0'), (r'\bacharge\b', 'bcharge'), (r'\bccharge\b', 'bcharge'), (r'max\(', 'min('), (r'min\(', 'max('),
            (r'BaseException', 'Exception'), (r'\[:\] =', ' ='), (r'ndm0r', 'ndm0'), (r'statesdm\b', 'chargelst'),
            (r'\bmany\b', ''), (r'\bself\.(\w+) = (.*)$', r'\1 = \2')]
    for a, b in subs:
        for m in re.finditer(a, line):
            new = line[:m.start()]+re.sub(a, b, m.group(0))+line[m.end():]
            if new != line:
                out.append(new)
    return out


def draw(rng, seen, pat):
    files = [f for f in FILES if re.search(pat, f)]
    while True:
        f = rng.choices(files, [HEAVY.get(x, 1) for x in files])[0]
        text = open('/repo/qmeq/'+f).read()
        i = rng.choice(code_lines(text))
        lines = text.split('\n')
        c = mutants(lines[i])
        if not c:
            continue
        new = rng.choice(c)
        if (f, i, new) in seen or new == lines[i]:
            continue
        seen.add((f, i, new))
        return f, i, lines[i], new


def sh(cmd, t=900, **k):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace', **k)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 99, str(e.stdout)[-1000:]+' TIMEOUT', '')


def one(w, mut, div, jobs, checks):
    f, i, old, new = mut
    d, bd = '/tmp/mut/w%d' % w, '/tmp/mut/b%d' % w
    p = os.path.join(d, 'qmeq', f)
    orig = open('/repo/qmeq/'+f).read()
    lines = orig.split('\n')
    lines[i] = new
    res = {'file': f, 'line': i+1, 'old': old.strip(), 'new': new.strip()}
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=bd, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', SIM_STAGE='')
    env.pop('SIM_STAGE')
    try:
        open(p, 'w').write('\n'.join(lines))
        r = sh([PY, os.path.join(ROOT, 'sim', 'build.py')], env=env)
        if r.returncode:
            return dict(res, r='build')
        b = r.stdout.strip().splitlines()[-1]
        for q, _, fs in os.walk(b):
            for x in fs:
                if x.endswith(SUF) and '/omp' not in q:
                    shutil.copyfile(os.path.join(q, x), os.path.join(d, os.path.relpath(q, b), x))
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', 'qmeq/tests'], 200, cwd=d, env=env)
        if r.returncode or '77 passed' not in r.stdout:
            return dict(res, r='tests')
        first = next(v for k, v in ORDER.items() if k in f)
        todo = checks or first+[c for c in ALL if c not in first]
        ran = []
        for c in todo:
            if c == 'C10' and f.endswith('.py'):
                continue
            runs = importlib.import_module('checks.'+c.lower()).RUNS
            r = sh([PY, os.path.join(ROOT, 'run.py'), c, '--count', str(max(20, runs//div)), '--jobs', str(jobs)], 1500, env=env)
            ran.append(c)
            if r.returncode:
                v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'kind' in l or 'msg' in l]
                return dict(res, r='caught', by=c, rc=r.returncode, what=(v or r.stdout.splitlines()[-3:])[0][:200])
        return dict(res, r='MISSED', ran=ran)
    finally:
        open(p, 'w').write(orig)
        # the build reuses modules lying beside unchanged sources
        for q, _, fs in os.walk('/repo/qmeq'):
            for x in fs:
                if x.endswith(SUF):
                    shutil.copyfile(os.path.join(q, x), os.path.join(d, os.path.relpath(q, '/repo'), x))


def main():
    a = argparse.ArgumentParser()
    a.add_argument('--n', type=int, default=50)
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--workers', type=int, default=4)
    a.add_argument('--jobs', type=int, default=2)
    a.add_argument('--div', type=int, default=6)
    a.add_argument('--files', default='.')
    a.add_argument('--checks', default='')
    a.add_argument('--redo', default='', help='a log: runs its MISSED entries again')
    a.add_argument('--out', default='/tmp/mut/log.jsonl')
    o = a.parse_args()
    os.makedirs('/tmp/mut', exist_ok=True)
    rng = random.Random(o.seed)
    seen = set()
    pool = Queue()
    for w in range(o.workers):
        shutil.rmtree('/tmp/mut/w%d' % w, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', '/tmp/mut/w%d' % w])
        pool.put(w)
    if o.redo:
        muts = [(d['file'], d['line']-1, open('/repo/qmeq/'+d['file']).read().split('\n')[d['line']-1], d) for d in
                map(json.loads, open(o.redo)) if d['r'] == 'MISSED']
        muts = [(f, i, l, l[:len(l)-len(l.lstrip())]+d['new']) for f, i, l, d in muts if l.strip() == d['old']]
    else:
        muts = [draw(rng, seen, o.files) for _ in range(o.n)]

    def job(m):
        w = pool.get()
        try:
            r = one(w, m, o.div, o.jobs, o.checks.split(',') if o.checks else None)
        except Exception as e:
            r = {'r': 'error', 'e': repr(e), 'm': m}
        finally:
            pool.put(w)
        with open(o.out, 'a') as f:
            f.write(json.dumps(r)+'\n')

    with ThreadPoolExecutor(o.workers) as ex:
        list(ex.map(job, muts))
    for w in range(o.workers):
        shutil.rmtree('/tmp/mut/w%d' % w, ignore_errors=True)
        shutil.rmtree('/tmp/mut/b%d' % w, ignore_errors=True)


if __name__ == '__main__':
    main()
