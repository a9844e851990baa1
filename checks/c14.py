"""C14: errors raised by user-supplied functions reach the caller."""

from sim import faults, ops
from sim.faults import faults_hook
from sim.history import World, classify, equal, gen_history, opname, snapshot
from sim.ops import Live, apply
from sim.runner import bump, mark
from sim.world import Skip, engines, gen_spec, quiet

RUNS = 1300
RULE = ('a seed draws a phonon-coupled system with a user-supplied density of states, or an iterative second-order system '
        'with a user function per iteration, and a history in which the user function raises at a chosen call of some '
        'solves; non-trivial if an injected error fired and a later solve was compared with a new system; distinct by '
        'configuration, operations, exception kinds and call positions')
SHRINK = ('ops',)
STUBS = 'the user functions (density of states, per-iteration function) are simulated'


class UserError(Exception):
    def __init__(self, *a):
        Exception.__init__(self, 'raised by a user function', *a)


class UserStop(BaseException):
    pass


class UserFloat(ArithmeticError):
    pass


KINDS = {'UserError': UserError, 'UserStop': UserStop, 'UserFloat': UserFloat, 'StopIteration': StopIteration,
         'GeneratorExit': GeneratorExit, 'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit,
         'ZeroDivisionError': ZeroDivisionError, 'MemoryError': MemoryError, 'AttributeError': AttributeError,
         'TypeError': TypeError, 'IndexError': IndexError, 'KeyError': KeyError, 'UserWarning': UserWarning,
         'NotImplementedError': NotImplementedError, 'RecursionError': RecursionError, 'OSError': OSError,
         'LinAlgError': faults.EXC['LinAlgError'], 'FloatingPointError': FloatingPointError, 'ValueError': ValueError}
faults.EXC.update(KINDS)


def gen_fault(rng):
    frac = rng.choice([0.0, 0.99999, round(rng.random(), 4), round(rng.random(), 4)])
    return {'seam': 'bath', 'exc': rng.choice(sorted(KINDS)), 'frac': frac}


def gen(rng, tier, i):
    if rng.random() < 0.7:
        spec = gen_spec(rng, kinds=('elph', 'elph', 'mbelph'), nmax=rng.choice([2, 2, 3]), mfree=0.12, py=0.45)
        spec['bath'] = rng.choice(['const', 'ohmic'])
        if rng.random() < 0.06 and spec['nsingle'] <= 2:
            spec['itype_ph'] = 0
    else:
        spec = gen_spec(rng, kinds=('base',), approaches=('2vN',), py=0.4, nmax=2)
        spec['kpnt'] = rng.choice([32, 48])
    n = rng.randint(2, 6) if tier == 'quick' else rng.randint(3, 10)
    w = {'edit': 1, 'direct': 0.5, 'solve': 5, 'set': 0.7, 'restrict': 0.6}
    lst = gen_history(rng, spec, n, w, setting={'keys': ['symq', 'norm_row', 'itype', 'solmethod']
                                                + (['kerntype', 'kerntype'] if spec['kind'] != 'base' else [])})
    out = []
    for op in lst:
        if op['o'] == 'solve':
            op = dict(op, niter=rng.choice([1, 2, 3]))
            if rng.random() < 0.7:
                out.append(dict(op, fault=gen_fault(rng)))
                if rng.random() < 0.3:
                    out.append(dict(op, fault=gen_fault(rng)))
                continue
        out.append(op)
    if not any('fault' in op for op in out):
        out.append({'o': 'solve', 'niter': 2, 'fault': gen_fault(rng)})
    return {'specs': [spec], 'ops': out}


def observer(appr):
    if faults_hook.active is not None:
        faults_hook.active.hit('func_iter')


def faulted_solve(live, op, stats):
    m, b = live.model, live.b
    args = ops.solve_args(live, op)
    if engines(m.set['kerntype']) == '2vN' and args.get('masterq', True):
        args['func_iter'] = observer
    before = snapshot(live)
    fl = op['fault']
    with quiet():
        f, _, e = faults.inject('bath', fl['exc'], fl['frac'], lambda: b.solve(**args))
    args.pop('func_iter', None)
    bump(stats, 'user_functions_armed')
    if f.fired:
        bump(stats, 'faults_injected', fl['exc'])
        bump(stats, 'faulty_function', f.where)
        mark(stats, 'call_positions', '%s/%s' % (f.n, f.points))
        mark(stats, 'engines', m.set['kerntype'])
    what = '%s raised in call %s of %s of the user function (%s)' % (fl['exc'], f.n, f.points, m.set['kerntype'])
    msg = None
    if f.fired and e is None:
        msg = 'swallowed: %s did not reach the caller' % what
    elif f.fired and e is not f.exc:
        msg = 'changed: %s, the caller got %r' % (what, e)
    elif not f.fired and e is not None:
        msg = 'raises: a solve with a well-behaved function raises %r' % e
    if msg is None:
        now = snapshot(live)
        for k, v in before.items():
            if k != 'solmethod' and not equal(v, now[k]):
                msg = 'parameters: %s; %s changed from %s to %s' % (what, k, v, now[k])
                break
    if f.fired:
        if not m.many:
            m.diagH = m.rot = None
        return msg, None, True
    return msg, (ops.solved(live, args) if e is None else None), False


def run(trace, stats):
    spec = trace['specs'][0]
    w = World(trace, stats)
    live = Live(spec)
    v, hurt = None, False
    for op in list(trace['ops'])+[{'o': 'solve', 'niter': 2}]:
        m0 = live.model.copy()
        obs, msg = None, None
        try:
            if 'fault' in op:
                msg, obs, fired = faulted_solve(live, op, stats)
                hurt = hurt or fired
                w.done.append('%s!%s@%s' % (opname(op), op['fault']['exc'], op['fault']['frac']))
            else:
                obs = apply(live, op)
                w.done.append(opname(op))
        except Skip:
            bump(stats, 'skipped')
            continue
        except Exception as e:
            v = classify(live, m0, op, e, stats)
            v['msg'] = 'after %s: %s' % (' '.join(w.done[-5:]), v['msg'])
            break
        if msg is None and obs is not None:
            msg = ops.check_fresh(live, obs, stats)
            if hurt:
                w.nontrivial = True
                bump(stats, 'recoveries_compared')
        if msg is not None:
            v = {'kind': msg.split()[0].rstrip(':'), 'msg': 'after %s: %s' % (' '.join(w.done[-6:]), msg)}
            break
    w.finish(spec)
    return v
