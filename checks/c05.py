"""C05: an interrupted or failing solve is visible and leaves the system usable."""

from sim import faults, ops
from sim.history import World, classify, equal, gen_history, opname, snapshot
from sim.ops import Live, apply
from sim.runner import bump, forked, mark
from sim.world import extreme, Skip, engines, gen_spec, is_py, quiet

RUNS = 1600
RULE = ('a seed draws a system, a history of solves, edits, switches and restrictions, and for some of the solves one '
        'exception (interrupt, memory exhaustion, numerical error) at one point of one seam: any Python line, any call '
        'into numpy or scipy, any interpreter allocation, any malloc of the linear solvers, any call of a user function; non-trivial if a fault fired and a '
        'later solve was compared with a new system; distinct by configuration, operations and fault points')
SHRINK = ('ops',)
STUBS = 'numpy and scipy functions called by qmeq are wrapped by pass-through seams while a fault is armed'
ASSUMPTIONS = ['signals are delivered to the main thread between Python bytecodes, where the line seam raises']


def gen_fault(rng, spec):
    seam = rng.choice(['line', 'line', 'call', 'call', 'alloc', 'linalg', 'malloc'] + (['bath'] if spec.get('bath') else []))
    f = {'seam': seam, 'frac': round(rng.random(), 5)}
    if seam == 'alloc':
        f['exc'], f['frac'] = 'MemoryError', int(10**rng.uniform(0, 3.2))
    elif seam == 'malloc':
        f['exc'] = 'MemoryError'
    elif seam == 'line':
        f['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'SystemExit'])
    elif seam == 'linalg':
        f['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'LinAlgError', 'ValueError'])
    else:
        f['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'LinAlgError', 'FloatingPointError', 'ValueError',
                               'ZeroDivisionError', 'SystemExit'])
    return f


def gen(rng, tier, i):
    kinds = ('base', 'base', 'base', 'mb', 'elph', 'elph', 'mbelph')
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if rng.random() < 0.7 else ('RTD', '2vN')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, nmax=rng.choice([2, 2, 3]) if apps[0] != 'RTD' else 2, mfree=0.1)
    if not spec['mfreeq'] and rng.random() < 0.1:
        extreme(rng, spec)
    if spec.get('kind') in ('elph', 'mbelph') and rng.random() < 0.7:
        spec['bath'] = rng.choice(['const', 'ohmic'])
    n = rng.randint(2, 6) if tier == 'quick' else rng.randint(3, 10)
    w = {'edit': 1, 'direct': 0.5, 'solve': 5, 'set': 1, 'restrict': 0.8}
    lst = gen_history(rng, spec, n, w)
    out = []
    for op in lst:
        if op['o'] == 'solve' and rng.random() < 0.65:
            out.append(dict(op, fault=gen_fault(rng, spec)))
            if rng.random() < 0.35:
                out.append(dict(out[-1], fault=gen_fault(rng, spec)))
            if rng.random() < 0.6:
                out.append({'o': 'solve', 'niter': 1})
        else:
            out.append(op)
    if not any('fault' in op for op in out):
        out.append({'o': 'solve', 'niter': 1, 'fault': gen_fault(rng, spec)})
    return {'specs': [spec], 'ops': out}


def in_solver(f):
    """True if the fault was raised inside the linear solver or root finder, whose failures are reported by success."""
    return f.where in ('solve', 'lstsq', 'root') or any(n in ('solve_kern', 'solve_matrix_free') for n in f.stack)


def faulted_solve(live, op, stats):
    """Returns (message or None, observation or None, interrupted)."""
    m, b = live.model, live.b
    args = ops.solve_args(live, op)
    before = snapshot(live)
    fl = op['fault']
    with quiet() as cap:
        f, _, e = faults.inject(fl['seam'], fl['exc'], fl['frac'], lambda: b.solve(**args))
    live.out = cap.getvalue()
    bump(stats, 'faults_armed', fl['seam'])
    fired = f.fired or (fl['seam'] == 'alloc' and (e is not None or (args.get('masterq', True) and not b.success)))
    if fired:
        bump(stats, 'faults_injected', '%s %s' % (fl['seam'], fl['exc']))
        mark(stats, 'fault_points', str(f.where)[:60])
    what = '%s raised at %s' % (fl['exc'], f.where or 'allocation %s' % fl['frac'])
    msg = None
    if f.fired and e is None:
        if not isinstance(f.exc, Exception):
            msg = 'swallowed: %s did not reach the caller' % what
        elif not in_solver(f):
            msg = 'swallowed: %s did not reach the caller (success: %s)' % (what, b.success)
        elif b.success:
            # a later stage made up for it (2vN solves once per iteration): the results have to be right
            return msg, ops.solved(live, args), False
    elif f.fired and e is not f.exc and not in_solver(f):
        msg = 'other: %s, the caller got %r' % (what, e)
    elif not fired and e is not None:
        msg = 'raises: a solve without fault raises %r' % e
    if msg is None:
        now = snapshot(live)
        for k, v in before.items():
            if k != 'solmethod' and not equal(v, now[k]):
                msg = 'parameters: %s; %s changed from %s to %s' % (what, k, v, now[k])
                break
    if fired:
        if not m.many:
            m.diagH = m.rot = None
        return msg, None, True
    return msg, (ops.solved(live, args) if e is None else None), False


def run(trace, stats):
    if any(op.get('fault', {}).get('seam') == 'alloc' for op in trace['ops']):
        # numpy itself does not survive every failing allocation: such runs are left out
        how, res = forked(lambda: child(trace), 100.0)
        if how != 'ok':
            bump(stats, 'runs_left_out_numpy_died')
            return None
        merge_into(stats, res['stats'])
        return res['v']
    return history(trace, stats)


def child(trace):
    st = {}
    return {'v': history(trace, st), 'stats': st}


def merge_into(stats, part):
    for k, v in part.items():
        stats[k] = v


def history(trace, stats):
    spec = trace['specs'][0]
    w = World(trace, stats)
    live = Live(spec)
    v, hurt = None, False
    for op in list(trace['ops'])+[{'o': 'solve', 'niter': 2}]:
        m0 = live.model.copy()
        obs, msg = None, None
        try:
            if 'fault' in op:
                msg, obs, fired = faulted_solve(live, op, stats)
                hurt = hurt or fired
                fl = op['fault']
                w.done.append('%s!%s:%s@%s' % (opname(op), fl['seam'], fl['exc'], fl['frac']))
            else:
                obs = apply(live, op)
                w.done.append(opname(op))
        except Skip:
            bump(stats, 'skipped')
            continue
        except Exception as e:
            v = classify(live, m0, op, e, stats)
            v['msg'] = 'after %s: %s' % (' '.join(w.done[-5:]), v['msg'])
            break
        if msg is None and obs is not None:
            msg = ops.check_fresh(live, obs, stats)
            if hurt:
                w.nontrivial = True
                bump(stats, 'recoveries_compared')
        if msg is not None:
            v = {'kind': msg.split()[0].rstrip(':'), 'msg': 'after %s: %s' % (' '.join(w.done[-6:]), msg)}
            break
    w.finish(spec)
    return v
