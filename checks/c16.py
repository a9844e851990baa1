"""C16: results depend only on the parameters, never on leftover memory or process state."""

import base64
import gc
import json
import os
import subprocess
import sys
import warnings

import numpy as np

from sim import faults, memory, ops
from sim.history import config, gen_history, opname, snapshot
from sim.ops import Live, apply
from sim.runner import bump, forked, mark
from sim.world import Skip, engines, extreme, gen_spec, quiet
from checks.c05 import gen_fault

RUNS = 900
RULE = ('a seed draws a system, a history of solves, edits, switches, restrictions, printed reports and interrupted solves, '
        'and variants of the environment: what new memory, the heap and the stack hold, what the process did before (other '
        'systems, failed and interrupted solves, swallowed errors), numpy settings, random state, garbage collections, and '
        'for some runs another interpreter with another hash seed and address space; non-trivial if at least two '
        'environments were compared after a solve; distinct by configuration, operations and environments')
SHRINK = ('ops', 'variants')
STUBS = 'numpy.empty and numpy.empty_like fill what they return; libc malloc fills new blocks (M_PERTURB)'
ASSUMPTIONS = ['BLAS and LAPACK run with one thread']
KINDS = ('base', 'base', 'base', 'mb', 'elph', 'elph', 'mbelph')


def unsettled(m):
    """Complex RTD: rounding, which depends on the alignment of the arrays, decides how many calls a solve makes."""
    return engines(m.set['kerntype']) == 'RTD' and not m.s['real']


def history_of(rng, n, fault=0.15):
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if rng.random() < 0.65 else ('RTD', '2vN')
    spec = gen_spec(rng, kinds=KINDS, approaches=apps, nmax=rng.choice([2, 3, 3]) if apps[0] != 'RTD' else 2, mfree=0.1)
    if not spec['mfreeq'] and rng.random() < 0.2:
        extreme(rng, spec)
    w = {'edit': 2, 'direct': 0.5, 'solve': 3, 'set': 1.5, 'restrict': 1.5, 'odd': 0.4}
    out = []
    for op in gen_history(rng, spec, n, w):
        if op['o'] == 'solve':
            if rng.random() < fault:
                f = gen_fault(rng, spec)
                if f['seam'] == 'line':
                    f['seam'] = 'call'      # CPython's specialised calls are not traced: lines are no stable position
                if f['seam'] != 'alloc':
                    out.append(dict(op, fault=f))
            if rng.random() < 0.15:
                op = dict(op, niter=1)
        out.append(op)
        if rng.random() < 0.15:
            out.append({'o': 'print'})
    out.append({'o': 'solve', 'niter': 2})
    return {'spec': spec, 'ops': out}


def gen(rng, tier, i):
    h = history_of(rng, rng.randint(1, 4) if tier == 'quick' else rng.randint(2, 9))
    vs = []
    for _ in range(2 if tier == 'quick' else 3):
        v = {'fill': rng.choice(memory.FILLS), 'byte': rng.choice([0xff, 0x7f, 0x01, 0x40, 0x55, 0xbf]),
             'seed': rng.randint(0, 9999), 'junk': rng.random() < 0.7, 'gc': rng.choice(['', '', 'off', 'often']),
             'err': rng.choice(['', '', 'ignore', 'warn']), 'rand': rng.random() < 0.5, 'prior': [], 'hash': None}
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.5:
                v['prior'].append(history_of(rng, rng.randint(0, 2), 0.5))
            else:
                # the same system with other values
                w = {'edit': 4, 'direct': 1, 'set': 0.5, 'restrict': 0.5}
                lst = gen_history(rng, h['spec'], rng.randint(1, 3), w)
                v['prior'].append({'spec': h['spec'], 'ops': lst+[{'o': 'solve', 'niter': 1}]})
        vs.append(v)
    if rng.random() < 0.2:
        vs[0]['hash'] = rng.randint(1, 99999)
    return {'specs': [h['spec']], 'ops': h['ops'], 'variants': vs}


# -- one execution -----------------------------------------------------------------------------------------------

def pack(a):
    a = np.ascontiguousarray(a)
    return [list(a.shape), a.dtype.str, base64.b64encode(a.tobytes()).decode()]


def unpack(x):
    return np.frombuffer(base64.b64decode(x[2]), dtype=x[1]).reshape(x[0])


def look(live):
    b = live.b
    if not hasattr(b.appr, 'success'):
        return {}       # RTD before its first solve
    out = {k: getattr(b, k) for k in ('current', 'energy_current', 'heat_current', 'phi0') if getattr(b, k) is not None}
    out['success'] = bool(b.success)
    out['Ea'] = b.Ea
    out['Tba'] = b.leads.Tba
    if hasattr(b, 'baths'):
        out['Vbbp'] = b.baths.Vbbp
    if hasattr(b, 'phi1') and b.phi1 is not None:
        out['phi1'] = b.phi1
    if b.kern is not None and not b.funcp.mfreeq and b.appr.is_prepared:
        out['kern'] = b.kern
    out['states_order'] = list(map(int, b.si.states_order))
    out['statesdm'] = repr([list(map(int, x)) for x in b.si.statesdm])
    for k, v in snapshot(live).items():
        if v is None or isinstance(v, (bool, int, str)):
            out[k] = v
        elif isinstance(v, dict):
            out[k] = repr(v)
        else:
            out[k] = v
    return {k: pack(v) if isinstance(v, np.ndarray) else v if isinstance(v, (bool, int, str, list)) or v is None else pack(
        np.asarray(v)) for k, v in out.items()}


def history(h, collect=True, before=None, keep_going=True):
    """Executes a history; returns what was seen after every operation."""
    recs = []

    def rec(op, **k):
        if collect:
            recs.append(dict(k, op=op))
    with quiet() as cap, warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            live = Live(h['spec'])
        except Exception as e:
            rec('build', error=repr(e))
            return recs
        for op in h['ops']:
            if before is not None:
                before()
            cap.seek(0)
            cap.truncate()
            live.out = ''
            name = opname(op)+('!' if 'fault' in op else '')
            err = None
            try:
                if op['o'] == 'print':
                    if live.model.many:
                        continue
                    live.b.print_all_states(sys.stdout)
                elif 'fault' in op and not unsettled(live.model):
                    args = ops.solve_args(live, op)
                    fl = op['fault']
                    f, _, e = faults.inject(fl['seam'], fl['exc'], fl['frac'], lambda: live.b.solve(**args))
                    err = 'fault %s %r' % (f.where, e)
                    if not live.model.many:
                        live.model.diagH = live.model.rot = None
                else:
                    apply(live, op)
                    if op['o'] == 'odd':
                        err = live.odd
            except Skip:
                continue
            except Exception as e:
                err = repr(e)
            r = look(live) if collect else None
            if collect:
                rec(name, error=err, text=cap.getvalue()+live.out, seen=r)
    if collect and recs:
        recs[-1]['warnings'] = sorted(set(str(w.message) for w in ws if 'qmeq' in str(w.filename)))
    return recs


def execute(h, v):
    """A history in one environment, in a process of its own."""
    m = memory.Memory(v['fill'], v['byte'], v['seed'])
    if v['rand']:
        np.random.seed(v['seed'])
    for p in v['prior']:
        history(p, collect=False)
    if v['gc'] == 'off':
        gc.disable()

    def before():
        if v['junk']:
            m.junk()
        if v['gc'] == 'often':
            gc.collect()
    with m, np.errstate(**({'all': v['err']} if v['err'] else {})):
        return {'recs': history(h, before=before), 'filled': m.n}


PLAIN = {'fill': 'zero', 'byte': 0, 'seed': 0, 'junk': False, 'gc': '', 'err': '', 'rand': False, 'prior': [], 'hash': None}


def other_process(h, v):
    """The same in a new interpreter with another hash seed."""
    env = dict(os.environ, PYTHONHASHSEED=str(v['hash']), SIM_STAGE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.other'], input=json.dumps([h, v]), text=True, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                       cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if p.returncode:
        return 'crash', p.returncode if p.returncode < 0 else p.stderr[-300:]
    return 'ok', json.loads(p.stdout)


# -- comparison --------------------------------------------------------------------------------------------------

def differ(a, b):
    """(kind of difference, text) of two records, or None."""
    if a['op'] != b['op']:
        return 'operations', '%s / %s' % (a['op'], b['op'])
    for k in ('error', 'text', 'warnings'):
        if a.get(k) != b.get(k):
            return k, '%s / %s' % (str(a.get(k))[-200:], str(b.get(k))[-200:])
    x, y = a.get('seen'), b.get('seen')
    if x == y:
        return None
    if x is None or y is None or sorted(x) != sorted(y):
        return 'attributes', '%s / %s' % (sorted(x or ()), sorted(y or ()))
    for k in x:
        if x[k] != y[k]:
            if isinstance(x[k], list) and len(x[k]) == 3 and isinstance(x[k][2], str):
                u, w = unpack(x[k]), unpack(y[k])
                if u.shape != w.shape:
                    return k, 'shapes %s / %s' % (u.shape, w.shape)
                if u.dtype == w.dtype and np.array_equal(u, w, equal_nan=u.dtype.kind in 'fc'):
                    continue
                d = np.abs(u-w)
                return k, 'difference %.3g of %.3g' % (np.nanmax(d) if np.any(np.isfinite(d)) else np.nan,
                                                       np.nanmax(np.abs(u)) if u.size else 0)
            return k, '%s / %s' % (str(x[k])[:150], str(y[k])[:150])
    return None


def run(trace, stats):
    h = {'spec': trace['specs'][0], 'ops': trace['ops']}
    how, base = forked(lambda: execute(h, PLAIN), 60)
    if how != 'ok':
        return {'kind': 'crash', 'msg': 'the history ends with %s %s' % (how, base)}
    if 'recs' not in base:
        return base['v']
    for r in base['recs']:
        bump(stats, 'operations', r['op'].split(':')[0].split('-')[0])
        if (r['error'] or '').startswith('fault'):
            bump(stats, 'faults_injected', 'interrupted solves')
    solved, names = any(r['op'].startswith('solve') for r in base['recs']), []
    for v in trace['variants']:
        if v['hash'] is not None:
            how, res = other_process(h, v)
        else:
            how, res = forked(lambda: execute(h, v), 60)
        name = '%s/%02x%s%s%s%s%s%s' % (v['fill'], v['byte'], '/junk' if v['junk'] else '', '/gc '+v['gc'] if v['gc'] else '',
                                        '/'+v['err'] if v['err'] else '', '/rand' if v['rand'] else '',
                                        '/after %s' % ' '.join(p['spec']['kerntype'] for p in v['prior']) if v['prior'] else '',
                                        '/hash' if v['hash'] is not None else '')
        names.append(name)
        bump(stats, 'faults_injected', 'memory filled with %s' % v['fill'])
        for k in ('junk', 'gc', 'err', 'rand', 'prior'):
            if v[k]:
                bump(stats, 'faults_injected', {'junk': 'junk in heap and stack', 'gc': 'garbage collection '+v['gc'],
                                                'err': 'numpy error state '+v['err'], 'rand': 'random state',
                                                'prior': 'prior workloads'}[k])
        if v['hash'] is not None:
            bump(stats, 'faults_injected', 'hash seed and address space')
        if how != 'ok':
            return {'kind': 'crash', 'msg': 'in the environment %s the process dies (%s %s)' % (name, how, res)}
        if 'recs' not in res:
            return res['v']
        bump(stats, 'environments')
        stats['arrays_filled'] = stats.get('arrays_filled', 0)+res['filled']
        if len(res['recs']) != len(base['recs']):
            return 'length: %d operations instead of %d in %s' % (len(res['recs']), len(base['recs']), name)
        for k, (a, b) in enumerate(zip(base['recs'], res['recs'])):
            d = differ(a, b)
            if d is not None:
                return {'kind': 'differs', 'msg': '%s after %s in the environment %s: %s' % (
                    d[0], ' '.join(r['op'] for r in base['recs'][:k+1][-6:]), name, d[1])}
            bump(stats, 'observations_compared')
    if solved and names:
        ds = [r['op'] for r in base['recs']]
        stats['case'] = [config(h['spec'])+'|'+','.join(ds)+'|'+';'.join(names)]
        stats['sample'] = json.dumps({'system': config(h['spec']), 'operations': ds, 'environments': names})
    else:
        stats['case'] = []
    mark(stats, 'configs', config(h['spec']))
    return None

