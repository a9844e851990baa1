"""C10: results do not depend on the number or scheduling of OpenMP threads."""

import ctypes
import json

import numpy as np

from sim import ompbuild, ops
from sim.history import classify, config, gen_history, opname
from sim.ops import Live, apply
from sim.runner import bump, mark
from sim.world import extreme, Skip, engines, gen_spec, is_py, quiet, scales

RUNS = 3000
OMP = True
RULE = ('a seed draws a system, a history of edits, restrictions and switches, and for every solve one to three schedules: '
        'team size (changed between solves, or smaller than requested), policy (whole workers in random order, random '
        'switches, random priorities with changes, switches at words that several workers touch), a worker that is '
        'starved; workers are coroutines that can lose control before every memory access; non-trivial if a solve with '
        'more than one worker was compared; distinct by configuration, operations and schedules')
SHRINK = ('ops', 'list')
STUBS = ('libgomp is replaced by the simulated runtime; qmeq\'s compiled modules are rebuilt from the same generated C with '
         'instrumented memory accesses')
ASSUMPTIONS = ['sequentially consistent memory: reordering by compiler or processor within one worker is not simulated',
               'switches happen before memory accesses of qmeq\'s compiled modules, not inside libm or BLAS']
_lib = []


def lib():
    if not _lib:
        L = ctypes.CDLL(None)
        L.sim_reseed.argtypes = [ctypes.c_uint64]
        _lib.append(L)
    return _lib[0]


def cint(name):
    return ctypes.c_int.in_dll(lib(), name)


def clong(name):
    return ctypes.c_long.in_dll(lib(), name)


def gen_schedule(rng):
    team = rng.choice([2, 2, 3, 4, 5, 7, 8, 11, 16])
    s = {'max': team, 'granted': team if rng.random() < 0.8 else rng.randint(1, team),
         'policy': rng.choice([0, 1, 1, 2, 2, 3, 3, 3]), 'seed': rng.randint(1, 2**40),
         'gap': int(10**rng.uniform(0.3, 3.5)), 'changes': rng.randint(1, 8),
         'stall': rng.randint(0, team-1) if rng.random() < 0.25 else -1}
    return s


def gen(rng, tier, i):
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if rng.random() < 0.6 else ('RTD',)
    kinds = ('base', 'base', 'mb', 'elph', 'mbelph') if apps[0] != 'RTD' else ('base', 'base', 'mb')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, py=0.0, nmax=rng.choice([2, 3, 3, 4]) if apps[0] != 'RTD' else
                    rng.choice([2, 2, 3]), mfree=0.25)
    if not spec['mfreeq'] and rng.random() < 0.2:
        extreme(rng, spec)
    n = rng.randint(1, 5) if tier == 'quick' else rng.randint(3, 10)
    w = {'edit': 2, 'direct': 0.4, 'solve': 2, 'set': 1.5, 'restrict': 3}
    out = []
    for op in gen_history(rng, spec, n, w)+[{'o': 'solve'}]:
        if op['o'] == 'set' and op['k'] == 'kerntype' and (is_py(op['v']) or engines(op['v']) == '2vN'):
            continue
        if op['o'] == 'solve':
            op = dict(op, sched=[gen_schedule(rng) for _ in range(rng.randint(1, 3))])
            if rng.random() < 0.5 and len(op['sched']) > 1:
                # the words several workers touched are known from the first pass
                op['sched'][1] = dict(op['sched'][0], policy=3, seed=rng.randint(1, 2**40), gap=100000)
        elif rng.random() < 0.2:
            out.append({'o': 'threads', 'n': rng.choice([1, 1, 2, 4, 16])})
        out.append(op)
    return {'specs': [spec], 'ops': out}


class workers(object):
    """Context: parallel regions follow a schedule."""

    def __init__(self, s, force=None):
        self.s, self.force = s, force

    def __enter__(self):
        s = self.s
        cint('sim_max_threads').value = s['max']
        cint('sim_granted').value = s['granted']
        cint('sim_policy').value = s['policy']
        cint('sim_stall').value = s['stall']
        cint('sim_changes').value = s['changes']
        clong('sim_gap').value = s['gap']
        lib().sim_reseed(s['seed'])
        lst = s.get('list')
        if lst is not None:
            self.keep = (ctypes.c_long*(2*len(lst)+2))(*[x for e in lst for x in e])
            ctypes.c_void_p.in_dll(lib(), 'sim_list').value = ctypes.addressof(self.keep)
            clong('sim_nlist').value = len(lst)
            cint('sim_policy').value = 4
        self.n0 = {k: clong('sim_'+k).value for k in ('regions', 'accesses', 'switches', 'conflicts')}
        return self

    def __exit__(self, *a):
        self.n = {k: clong('sim_'+k).value-v for k, v in self.n0.items()}
        self.left = cint('sim_max_threads').value
        single(self.s['max'])

    def schedule(self):
        n = clong('sim_nrec').value
        if clong('sim_lost').value or not n:
            return None
        p = ctypes.c_void_p.in_dll(lib(), 'sim_rec').value
        a = np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(ctypes.c_long)), (n, 2))
        return a.tolist()


def single(maximum=1):
    """One worker from now on; omp_get_max_threads() says `maximum`."""
    cint('sim_max_threads').value = maximum
    cint('sim_granted').value = 1
    cint('sim_stall').value = -1
    cint('sim_policy').value = 0


ARR = ('current', 'energy_current', 'heat_current', 'phi0')


def differences(a, b, m):
    """a: simulated workers, b: one worker."""
    if bool(a.success) != bool(b.success):
        return 'success: %s instead of %s' % (a.success, b.success)
    for k in ('kern', )+ARR if not m.set['mfreeq'] else ARR:
        x, y = getattr(a, k), getattr(b, k)
        if x is None or y is None:
            if (x is None) != (y is None):
                return '%s: %r instead of %r' % (k, x, y)
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return '%s: shape %s instead of %s' % (k, x.shape, y.shape)
        if np.array_equal(x, y, equal_nan=True):
            continue
        fin = y[np.isfinite(y)]
        s = float(np.max(np.abs(fin))) if fin.size else 1.0
        g, eg = scales(m)
        if k == 'kern':
            tol = 1e-10*max(s, g)
        elif k == 'phi0':
            tol = 1e-7*max(s, 1.0)
        else:
            tol = 1e-7*max(s, g if k == 'current' else eg)
        if m.set['mfreeq']:
            tol = max(tol, 1e-4*max(s, 1.0))
        if not np.allclose(x, y, rtol=0, atol=tol, equal_nan=True):
            d = np.abs(x-y)
            return '%s: differs by %.3g of %.3g' % (k, np.nanmax(d) if np.any(np.isfinite(d)) else np.nan, s)
    return None


def matrix(b, m):
    return None if m.set['mfreeq'] or b.appr.kern is None else np.array(b.appr.kern)


def explicit(trace, v):
    """The trace up to the solve that failed, with the switches of that solve written out."""
    i, k = v['at']
    last = trace['ops'][i]
    return dict(trace, ops=trace['ops'][:i]+[dict(last, sched=last['sched'][:k+1])], list=v['schedule'])


def run(trace, stats):
    spec = trace['specs'][0]
    single()
    live, twin = Live(spec), Live(spec)
    mark(stats, 'configs', config(spec))
    done, v, n = [], None, 0
    for w in (live, twin):
        w.b.make_kern_copy = True
        w.model.set['kcopy'] = True
    threads = 1
    for i, op in enumerate(trace['ops']):
        if op['o'] == 'threads':
            single(op['n'])
            done.append('threads=%d' % op['n'])
            continue
        m0 = live.model.copy()
        scheds = op.get('sched', [None])
        msg = None
        try:
            for j, s in enumerate(scheds):
                if s is not None and 'list' in trace and i == len(trace['ops'])-1 and j == len(scheds)-1:
                    s = dict(s, list=trace['list'])
                with quiet():
                    if s is None:
                        for w in (live, twin):
                            apply(w, op)
                        continue
                    with workers(s) as k:
                        apply(live, op)
                    lst = k.schedule()
                    single()
                    apply(twin, op)
                    single(s['max'])
                bump(stats, 'solves')
                for x, y in k.n.items():
                    stats[x] = stats.get(x, 0)+y
                bump(stats, 'policies', 'explicit' if 'list' in s else ['whole workers', 'random', 'priorities', 'conflicts'][
                    s['policy']])
                bump(stats, 'team_sizes', str(min(s['max'], s['granted'])))
                if s['granted'] < s['max']:
                    bump(stats, 'faults_injected', 'fewer workers granted than requested')
                if s['stall'] >= 0:
                    bump(stats, 'faults_injected', 'starved worker')
                if threads != s['max']:
                    bump(stats, 'faults_injected', 'number of threads changed after preparation')
                threads = s['max']
                n += k.n['switches'] > 0
                mark(stats, 'schedules', '%x' % (hash(json.dumps(lst)) & 0xffffffffffff) if lst else '0')
                if op.get('masterq', True) is False:
                    continue
                msg = differences(live.b, twin.b, live.model)
                if msg is not None:
                    msg += ' with %d workers (policy %d, %d switches)' % (min(s['max'], s['granted']), s['policy'],
                                                                        k.n['switches'])
                    break
        except Skip:
            bump(stats, 'skipped')
            continue
        except Exception as e:
            v = classify(live, m0, op, e, stats)
            break
        done.append(opname(op)+('@%s' % ','.join('%d/%d' % (min(s['max'], s['granted']), s['policy']) for s in scheds)
                                if scheds[0] else ''))
        bump(stats, 'operations', opname(op).split(':')[0].split('-')[0])
        if msg is not None:
            v = {'kind': msg.split(':')[0], 'msg': 'after %s: %s' % (' '.join(done[-6:]), msg)}
            if lst is not None:
                v['schedule'], v['at'] = lst[:50000], [i, j]
            break
    stats['case'] = [config(spec)+'|'+','.join(done)+'|%d' % trace['ops'][-1].get('sched', [{'seed': 0}])[0]['seed']] if n else []
    if n:
        stats['sample'] = json.dumps({'system': config(spec), 'operations': done})
    return v
