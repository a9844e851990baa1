"""Seeded search over simulated runs, minimisation, replay and evidence.

One seed decides one run completely: its trace (systems, operations, faults, schedule) is generated from it and every
run happens in a process of its own, forked from a parent that has only imported the library.
"""

import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import world

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIZE = {'quick': 1.0, 'thorough': 12.0}
WALL = {'quick': 240.0, 'thorough': 780.0}      # stop starting new runs after this many seconds
SEED_TIMEOUT = 120.0
TWICE = 61                      # every so many runs one is executed a second time and both executions are compared


def seed_of(prop, base, i):
    return int(hashlib.sha256(('%s/%d/%d' % (prop, base, i)).encode()).hexdigest()[:12], 16)


def load(prop):
    return importlib.import_module('checks.%s' % prop.lower())


def canon(x):
    return json.dumps(x, sort_keys=True)


# ---------------------------------------------------------------------------------------------------------------
# one run in a process of its own

def child_run(check, trace):
    """Runs a trace; returns {'v': violation or None, 'stats': ..., 'digest': hash of everything observed}."""
    stats = {}
    seen = world.SEEN = hashlib.sha256()
    try:
        v = check.run(trace, stats)
    except KeyboardInterrupt:
        v = {'kind': 'harness', 'msg': 'stray KeyboardInterrupt\n'+traceback.format_exc()}
    except Exception:
        v = {'kind': 'harness', 'msg': traceback.format_exc()}
    if isinstance(v, str):
        v = {'kind': v.split(':')[0][:60], 'msg': v}
    seen.update(canon([v, stats]).encode())
    return {'v': v, 'stats': stats, 'digest': seen.hexdigest()}


def forked(fn, timeout):
    """Result of fn() evaluated in a forked process; ('crash', status) or ('hang', None) otherwise."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get('SIM_DEBUG'):
                os.dup2(null, 1)
                os.dup2(null, 2)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            try:
                os.write(w, json.dumps({'v': {'kind': 'harness', 'msg': traceback.format_exc()}, 'stats': {}}).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    buf, end = b'', time.time()+timeout
    hang = False
    while True:
        left = end-time.time()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5.0))
        if ready:
            part = os.read(r, 1 << 16)
            if not part:
                break
            buf += part
    if hang:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if hang:
        return 'hang', None
    try:
        return 'ok', json.loads(buf.decode())
    except ValueError:
        return 'crash', status


def run_isolated(check, trace, timeout=None):
    timeout = timeout or getattr(check, 'TIMEOUT', SEED_TIMEOUT)
    how, res = forked(lambda: child_run(check, trace), timeout)
    if how == 'ok':
        return res
    if how == 'hang':
        return {'v': {'kind': 'hang', 'msg': 'no progress: the run did not end within %d s' % timeout}, 'stats': {}}
    sig = os.WTERMSIG(res) if os.WIFSIGNALED(res) else None
    return {'v': {'kind': 'crash', 'msg': 'the process died (%s) inside the library' %
                  ('signal %d' % sig if sig else 'exit status %d' % res)}, 'stats': {}}


# ---------------------------------------------------------------------------------------------------------------
# statistics

def merge(total, part):
    for k, v in part.items():
        if isinstance(v, dict):
            merge(total.setdefault(k, {}), v)
        elif isinstance(v, list):
            total.setdefault(k, set()).update(v)
        elif isinstance(v, (int, float)):
            total[k] = total.get(k, 0)+v


def bump(stats, *path):
    d = stats
    for p in path[:-1]:
        d = d.setdefault(p, {})
    d[path[-1]] = d.get(path[-1], 0)+1


def mark(stats, key, item):
    """Adds an item to a set of distinct things seen."""
    lst = stats.setdefault(key, [])
    if item not in lst:
        lst.append(item)


# ---------------------------------------------------------------------------------------------------------------
# search

def search(check, prop, tier, base, jobs, wall, count):
    """Runs `count` seeds on `jobs` workers; yields (index, trace info, result)."""
    t0 = time.time()
    workers = {}
    for w in range(jobs):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr in workers:
                os.close(rr)
            try:
                for i in range(w, count, jobs):
                    if time.time()-t0 > wall:
                        break
                    seed = seed_of(prop, base, i)
                    how, tr = 'ok', None
                    try:
                        tr = check.gen(random.Random(seed), tier, i)
                        tr['prop'], tr['seed'], tr['index'] = prop, seed, i
                        t1 = time.time()
                        res = run_isolated(check, tr)
                        res['wall'] = time.time()-t1
                        if i % TWICE == 7 and res['v'] is None and res.get('digest'):
                            res['twice'] = run_isolated(check, tr).get('digest') == res['digest']
                    except Exception:
                        res = {'v': {'kind': 'harness', 'msg': traceback.format_exc()}, 'stats': {}}
                    res['i'] = i
                    if res['v'] is not None:
                        res['trace'] = tr
                    data = (json.dumps(res)+'\n').encode()
                    while data:
                        data = data[os.write(wr, data):]
            finally:
                os._exit(0)
        os.close(wr)
        workers[r] = [pid, b'']
    while workers:
        ready, _, _ = select.select(list(workers), [], [], 5.0)
        for r in ready:
            part = os.read(r, 1 << 16)
            if not part:
                os.close(r)
                os.waitpid(workers[r][0], 0)
                del workers[r]
                continue
            workers[r][1] += part
            while b'\n' in workers[r][1]:
                line, workers[r][1] = workers[r][1].split(b'\n', 1)
                yield json.loads(line)


# ---------------------------------------------------------------------------------------------------------------
# minimisation

def same(a, b):
    return a is not None and b is not None and a['kind'] == b['kind']


def minimise(check, trace, viol, budget=60.0):
    """Delta debugging over the lists named by check.SHRINK, each candidate in a process of its own."""
    t0 = time.time()
    tried = 0
    best, bv = trace, {k: x for k, x in viol.items() if k != 'schedule'}
    if 'schedule' in viol:
        # the recorded switches instead of the policy that chose them
        c = check.explicit(trace, viol)
        v = run_isolated(check, c)['v']
        if same(v, viol):
            best, bv = c, v
    timeout = 20.0 if viol['kind'] == 'hang' else getattr(check, 'TIMEOUT', SEED_TIMEOUT)

    def fails(c):
        nonlocal tried
        tried += 1
        return run_isolated(check, c, timeout)['v']

    changed = True
    while changed and time.time()-t0 < budget:
        changed = False
        for key in getattr(check, 'SHRINK', ('faults', 'ops')):
            lst = best.get(key)
            if not isinstance(lst, list):
                continue
            n = max(1, len(lst)//2)
            while n >= 1 and time.time()-t0 < budget:
                i, removed = 0, False
                while i < len(best[key]) and time.time()-t0 < budget:
                    c = dict(best)
                    c[key] = best[key][:i]+best[key][i+n:]
                    v = fails(c)
                    if same(v, viol):
                        best, bv, removed, changed = c, v, True, True
                    else:
                        i += n
                if not removed:
                    n //= 2
        for c in getattr(check, 'simplify', lambda t: [])(best):
            if time.time()-t0 > budget:
                break
            v = fails(c)
            if same(v, viol):
                best, bv, changed = c, v, True
    return best, bv, tried


# ---------------------------------------------------------------------------------------------------------------
# known findings

def known_findings(prop):
    """Entries of /verif/known-findings.json for this property that are recorded, not repaired."""
    try:
        with open(os.path.join(ROOT, 'known-findings.json')) as f:
            items = json.load(f)['findings']
    except OSError:
        return []
    return [k for k in items if k['property'] == prop and k.get('status') == 'known']


def match_known(viol, trace, known):
    for k in known:
        if viol.get('site') is not None and viol.get('site') == k.get('site'):
            return k
    return None


# ---------------------------------------------------------------------------------------------------------------
# entry points

def write_replay(prop, trace, viol, extra=None):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(canon(trace).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(p, 'w') as f:
        json.dump(dict({'property': prop, 'trace': trace, 'violation': viol}, **(extra or {})), f, indent=1)
    return p


def replay(path):
    with open(path) as f:
        r = json.load(f)
    check = load(r['property'])
    res = run_isolated(check, r['trace'])
    v = res['v']
    if v is None:
        print('replay: the violation does not occur on this tree')
        return 0
    print('replay: %s' % v['msg'])
    print('recorded: %s' % r['violation']['msg'])
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1


def main_check(prop, tier, base, jobs, count=None, only=None):
    check = load(prop)
    t0 = time.time()
    if only is not None:
        seed = seed_of(prop, base, only)
        tr = check.gen(random.Random(seed), tier, only)
        tr['prop'], tr['seed'], tr['index'] = prop, seed, only
        print(json.dumps(tr, indent=1))
        print(json.dumps(run_isolated(check, tr), indent=1))
        return 0
    if hasattr(check, 'setup'):
        check.setup(tier)
    n = count or int(check.RUNS*(SIZE[tier] if not hasattr(check, 'RUNS_THOROUGH') or tier == 'quick'
                                 else check.RUNS_THOROUGH/check.RUNS))
    known = known_findings(prop)
    total, runs, viols, invalid, cases, samples, seen_known = {}, 0, [], 0, set(), [], {}
    # permanent regression traces: minimised histories of repaired defects
    for name, tr in regressions(prop):
        res = run_isolated(check, tr)
        merge(total, res['stats'])
        bump(total, 'regression_traces')
        if res['v'] is not None:
            k = match_known(res['v'], tr, known)
            if k is not None:
                seen_known[k['id']] = k
            else:
                viols.append((tr, res['v'], None))
    run_wall, digest = 0.0, 0
    for res in search(check, prop, tier, base, jobs, WALL[tier], n):
        runs += 1
        run_wall += res.get('wall', 0.0)
        st = res['stats']
        for c in st.pop('case', []):
            cases.add(c)
        smp = st.pop('sample', None)
        if smp is not None and len(samples) < 4:
            samples.append(smp[:700])
        merge(total, st)
        if res.get('digest'):
            digest ^= int(res['digest'], 16)
        if 'twice' in res:
            bump(total, 'executed_twice', 'identical' if res['twice'] else 'different')
        if res['v'] is not None:
            k = match_known(res['v'], res.get('trace'), known)
            if k is not None:
                seen_known[k['id']] = k
                bump(total, 'known_finding_hits', k['id'])
                continue
            viols.append((res['trace'], res['v'], res['i']))
    wall = time.time()-t0
    flat = {}
    for k, v in total.items():
        if isinstance(v, set):
            flat['distinct_'+k] = len(v)
            if len(v) <= 40:
                flat[k] = sorted(v)
        else:
            flat[k] = v
    ev = {'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration',
          'coverage': {'evaluations': runs, 'distinct_nontrivial': len(cases), 'rule': check.RULE,
                       'samples': samples or ['(none)'],
                       'runs_per_hour': int(runs*3600/max(wall, 1e-3)), 'seeds_per_hour': int(runs*3600/max(wall, 1e-3)),
                       'simulated_time': 'the library has no clock or timer; progress is counted in operations '
                                         '(see operations) and in-solve steps',
                       'digest': 'all observations, violations and counts of these runs: %016x' % (digest >> 192),
                       'workers': jobs, 'planned_runs': n, 'measured': flat,
                       'state_measure': getattr(check, 'MEASURE', check.RULE),
                       'real_code': getattr(check, 'REAL', 'all of qmeq (Python and compiled modules), numpy, scipy, LAPACK'),
                       'stubs': getattr(check, 'STUBS', 'none')},
          'assumptions': getattr(check, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)

    def save():
        with open(os.path.join(ROOT, 'evidence', prop+'.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    save()
    print('%s %s: %d runs, %d distinct non-trivial, %.1f s, %d violation(s)' % (prop, tier, runs, len(cases), wall, len(viols)))
    for k in known:
        if k['id'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if not viols:
        return 0
    shown = set()
    for tr, v, i in sorted(viols, key=lambda x: (x[1]['kind'] == 'harness', x[2] is None, x[2] or 0)):
        if v['kind'] in shown or len(shown) >= 3:
            continue
        shown.add(v['kind'])
        print('run %s (seed %s): %s' % (i, tr and tr.get('seed'), v['msg'][:600]))
        small, sv, tried = minimise(check, tr, v, budget=45.0) if tr else (tr, v, 0)
        again = run_isolated(check, small)['v'] if tr else v
        note = {'original_ops': len((tr or {}).get('ops', [])), 'minimised_ops': len((small or {}).get('ops', [])),
                'candidates_tried': tried, 'reproduced': bool(same(again, v))}
        p = write_replay(prop, small, sv, {'minimisation': note, 'original_trace': tr})
        print('minimised to %d operations: %s' % (note['minimised_ops'], sv['msg'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    sys.stdout.flush()
    return 1


def regressions(prop):
    d = os.path.join(ROOT, 'regressions')
    out = []
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.startswith(prop+'-') and n.endswith('.json'):
                with open(os.path.join(d, n)) as f:
                    out.append((n, json.load(f)['trace']))
    return out
