"""C15: matrix-free solves never present a wrong result as success."""

import json

import numpy as np
import scipy.optimize

from sim import faults, ops
from sim.history import classify, config, gen_history, opname
from sim.ops import Live, apply
from sim.runner import bump, mark
from sim.world import FIRST, Skip, compare, engines, fragile, gen_spec, observe, quiet, scales

RUNS = 800
METHODS = ['krylov', 'hybr', 'lm', 'broyden1', 'broyden2', 'anderson', 'linearmixing', 'diagbroyden', 'excitingmixing',
           'df-sane']
RULE = ('a seed draws a system and a history of matrix-free and direct solves, edits, restrictions, initial guesses (good, '
        'random, zero, of a wrong length or type), root-finding methods (one of them does not exist) and, for some solves, '
        'a fault inside the root finder: it raises after some evaluations, stops there without convergence, or the user '
        'function it calls raises; non-trivial if a matrix-free solve was judged; distinct by configuration and operations')
SHRINK = ('ops',)
STUBS = 'scipy.optimize.root is wrapped: the real one runs until the point where a fault is injected'
ASSUMPTIONS = ['the accuracy of a root finder is a residual of 1e-4 at most, in the units of the equations (its documented '
               'tolerances are 6e-6 or smaller)']
RES = 1e-4


def gen(rng, tier, i):
    kinds = ('base', 'base', 'base', 'mb', 'elph', 'mbelph')
    spec = gen_spec(rng, kinds=kinds, nmax=3, mfree=0.9, py=0.4)
    if spec['kind'] in ('elph', 'mbelph') and rng.random() < 0.5:
        spec['bath'] = rng.choice(['const', 'ohmic'])
    n = rng.randint(1, 4) if tier == 'quick' else rng.randint(3, 9)
    w = {'edit': 2, 'direct': 0.5, 'set': 1.0, 'restrict': 1}
    out = []
    for op in gen_history(rng, spec, n, w)+[None]:
        r = rng.random()
        if r < 0.35:
            out.append({'o': 'guess', 'how': rng.choice(['none', 'ground', 'random', 'random', 'zero', 'huge', 'last',
                                                         'short', 'long', 'int', 'list', 'complex', 'nan', 'matrix']),
                        'seed': rng.randint(0, 999)})
        if rng.random() < 0.4:
            out.append({'o': 'method', 'v': rng.choice(METHODS+METHODS+[None, None, 'nonsense'])})
        if rng.random() < 0.15:
            out.append({'o': 'set', 'k': 'mfreeq', 'v': rng.random() < 0.6})
        s = {'o': 'free', 'stage': rng.choice(['full', 'full', 'full', 'nocur', 'master'])}
        if rng.random() < 0.4:
            s['fault'] = {'how': rng.choice(['raise', 'raise', 'stop', 'inside', 'inside']), 'k': int(10**rng.uniform(0, 2))-1,
                          'exc': rng.choice(['ValueError', 'LinAlgError', 'ZeroDivisionError', 'FloatingPointError',
                                             'MemoryError', 'OverflowError'])}
        out.append(s)
        if op is not None:
            out.append(op)
    out.append({'o': 'free', 'stage': 'full'})
    return {'specs': [spec], 'ops': out}


class Root(object):
    """Stands for scipy.optimize.root; follows the fault."""

    def __init__(self, real, fault):
        self.real, self.fault = real, fault
        self.calls, self.evals, self.fired = 0, 0, False

    def exc(self):
        self.fired = True
        n = self.fault['exc']
        return OverflowError('injected fault') if n == 'OverflowError' else faults.EXC[n]('injected fault')

    def __call__(self, fun, x0, *a, **k):
        self.calls += 1
        f, last = self.fault, [np.array(x0)]

        class Stop(Exception):
            pass

        def inner(x, *r):
            n = self.evals
            self.evals += 1
            if f is not None and n == f['k']:
                if f['how'] == 'stop':
                    raise Stop
                raise self.exc()
            last[0] = np.array(x)
            return fun(x, *r)
        try:
            return self.real(inner, x0, *a, **k)
        except Stop:
            self.fired = True
            return scipy.optimize.OptimizeResult(x=last[0], success=False, message='injected: not converged', status=2)


class rooted(object):
    def __init__(self, fault):
        self.r = Root(scipy.optimize.root, fault)

    def __enter__(self):
        self.old = scipy.optimize.root
        scipy.optimize.root = self.r
        return self.r

    def __exit__(self, *a):
        scipy.optimize.root = self.old


def equations(m, b0):
    """A, b of the direct solution of the same system in the same eigenbasis, and the system they come from.

    Coherences depend on the phases of the eigenvectors (and on their choice in degenerate subspaces), so the direct
    solution takes over the energies and the rotated amplitudes of the system judged."""
    d = m.copy()
    d.set.update(mfreeq=False, solmethod='solve', symq=True, kcopy=False, phi0_init=None)
    with quiet():
        f = d.fresh()
        f.make_kern_copy = True
        if b0 is None:
            f.solve(**d.solve_args())
        else:
            f.solve(masterq=False, **d.solve_args())
            for mine, its in pairs(f, b0):
                mine[...] = its
            args = {k: v for k, v in d.solve_args().items() if k not in ('qdq', 'rotateq')}
            f.solve(qdq=False, rotateq=False, **args)
    A = np.array(f.kern)
    A[m.set['norm_row']] = f.appr.norm_vec
    b = np.zeros(len(A))
    b[m.set['norm_row']] = 1.0
    return A, b, f


def pairs(f, b):
    out = [(f.qd.Ea, b.qd.Ea), (f.leads.Tba, b.leads.Tba)]
    if hasattr(f, 'baths'):
        out.append((f.baths.Vbbp, b.baths.Vbbp))
    return out


def currents_of(f, phi0):
    """Currents a direct system reports for a given vector."""
    f.appr.phi0[:] = phi0
    for k in ('current', 'energy_current', 'heat_current'):
        getattr(f.appr, k).fill(0.0)
    f.appr.generate_current()
    return {k: np.array(getattr(f, k)) for k in ('current', 'energy_current', 'heat_current')}


def guess(live, op):
    m, b = live.model, live.b
    how = op['how']
    ops.fix_norm_row(live)
    with quiet():
        n = len(equations(m, None)[2].phi0)
    r = np.random.RandomState(op['seed'])
    good = True
    if how == 'none':
        v = None
    elif how == 'ground':
        v = np.zeros(n)
        v[0] = 1.0
    elif how == 'random':
        v = r.rand(n)-0.3
    elif how == 'zero':
        v = np.zeros(n)
    elif how == 'huge':
        v = 1e3*(r.rand(n)-0.5)
    elif how == 'last':
        if b.phi0 is None or len(b.phi0) != n:
            raise Skip
        v = b.phi0              # the array of the system itself
    elif how == 'short':
        v, good = np.ones(max(n-1, 0))/max(n, 1), False
    elif how == 'long':
        v, good = np.ones(n+2)/n, False
    elif how == 'int':
        v = np.zeros(n, dtype=int)
        v[0] = 1
    elif how == 'list':
        v = [1.0]+[0.0]*(n-1)
    elif how == 'complex':
        v, good = np.ones(n, dtype=complex)/n, None
    elif how == 'matrix':
        v, good = np.ones((2, n))/n, False
    else:
        v, good = np.full(n, np.nan), None
    b.funcp.phi0_init = v
    live.good, live.n = good, n
    live.guess = None if v is None else np.array(v)
    return None


def free(live, op, stats):
    m, b = live.model, live.b
    if m.set['mfreeq'] and engines(m.set['kerntype']) in ('RTD', '2vN'):
        raise Skip
    ops.fix_norm_row(live)
    args = {}
    if op['stage'] == 'nocur':
        args['currentq'] = False
    if op['stage'] == 'master':
        if not m.clean() and not m.many or b.appr.phi0 is None:
            raise Skip
        args.update(qdq=False)
        if not m.many:
            args['rotateq'] = False
    if m.many:
        args['qdq'] = False
    if engines(m.set['kerntype']) == '2vN':
        args['niter'] = 2
    fl = op.get('fault')
    was = None if live.b.funcp.phi0_init is None else np.array(b.funcp.phi0_init)
    aliased = b.funcp.phi0_init is not None and b.funcp.phi0_init is b.phi0
    with rooted(fl) as r, quiet() as cap:
        b.solve(**args)
    told = cap.getvalue().count('no phi0_init')
    m.did_solve(args.get('qdq', True), args.get('rotateq', True))
    obs = observe(b)
    if not m.set['mfreeq']:
        if r.calls:
            return 'mode: a direct solve calls the root finder'
        obs.update(niter=args.get('niter'), nocur=op['stage'] == 'nocur', stale=not m.clean() and not m.many)
        msg = ops.check_fresh(live, obs, stats)
        return None if msg is None else 'direct: '+msg
    bump(stats, 'matrix_free_solves')
    due = was is None and not live.told
    if told > due:
        return 'notice: the default guess is announced %s' % ('again' if live.told else 'though a guess is given')
    if r.calls and due and not told:
        return 'notice: the default guess is used silently'
    live.told = live.told or told > 0
    if not r.calls and obs['success']:
        return 'mode: a matrix-free solve does not call the root finder'
    if r.fired:
        bump(stats, 'faults_injected', 'root finder %s %s' % (fl['how'], '' if fl['how'] == 'stop' else fl['exc']))
        if obs['success']:
            return 'failed: the search was ended (%s) but success is True' % fl['how']
    if was is not None and not aliased and not np.array_equal(was, np.array(b.funcp.phi0_init), equal_nan=True):
        return 'guess: the initial guess was changed'
    if b.funcp.solmethod == 'nonsense' and obs['success']:
        return 'method: a method that does not exist succeeds'
    with quiet():
        A, rhs, f = equations(m, b)
    if not f.success:
        bump(stats, 'no_direct_solution')
        return None
    phi0 = obs['phi0']
    if phi0.shape != rhs.shape:
        return 'shape: %d elements instead of %d' % (len(phi0), len(rhs))
    if not obs['success']:
        bump(stats, 'reported_failures', 'injected' if r.fired else str(b.funcp.solmethod))
        return None
    bump(stats, 'successes', str(b.funcp.solmethod))
    if live.guess is not None and live.guess.size != len(rhs):
        return 'guess: a guess of %d elements succeeds for %d equations' % (live.guess.size, len(rhs))
    if not np.all(np.isfinite(phi0)):
        return 'wrong: success with elements that are not finite'
    res = float(np.max(np.abs(np.dot(A, phi0)-rhs)))
    if res > RES:
        return 'wrong: success with a residual of %.3g (%s)' % (res, b.funcp.solmethod)
    norm = float(np.dot(f.appr.norm_vec, phi0))
    if abs(norm-1) > RES:
        return 'wrong: success with probabilities that sum to %.9g' % norm
    if op['stage'] == 'nocur':
        return None
    with quiet():
        cur = currents_of(f, phi0)
    g, eg = scales(m)
    big = max(1.0, float(np.max(np.abs(phi0))))
    for k, s in (('current', g), ('energy_current', eg), ('heat_current', eg)):
        if not np.allclose(obs[k], cur[k], rtol=1e-7, atol=1e-9*s*big):
            return 'current: %s %s is not that of the state found, %s' % (k, obs[k][:4], cur[k][:4])
    bump(stats, 'solutions_verified')
    return None


def method(live, op):
    m, b = live.model, live.b
    if not m.set['mfreeq']:
        raise Skip
    v = op['v']
    b.solmethod = v
    m.set['solmethod'] = v if v != 'nonsense' else 'krylov'
    return None


def run(trace, stats):
    spec = trace['specs'][0]
    live = Live(spec)
    live.good, live.guess, live.told = True, None, False
    done, v, n = [], None, 0
    mark(stats, 'configs', config(spec))
    for op in trace['ops']:
        m0 = live.model.copy()
        try:
            if op['o'] == 'free':
                msg = free(live, op, stats)
                n += live.model.set['mfreeq']
            elif op['o'] == 'guess':
                msg = guess(live, op)
            elif op['o'] == 'method':
                msg = method(live, op)
            elif op['o'] == 'solve':
                continue
            else:
                apply(live, op)
                msg = None
        except Skip:
            bump(stats, 'skipped')
            continue
        except Exception as e:
            if op['o'] in ('guess', 'method'):
                raise
            v = classify(live, m0, op, e, stats) if op['o'] != 'free' else \
                {'kind': 'exception', 'msg': 'after %s: the solve raises %r' % (' '.join(done[-6:]), e)}
            break
        name = opname(op) if op['o'] not in ('free', 'guess', 'method') else \
            op['o']+':'+str(op.get('how') or op.get('v') or op.get('stage'))+('!' if 'fault' in op else '')
        done.append(name)
        bump(stats, 'operations', name.split(':')[0])
        if msg is not None:
            v = {'kind': msg.split(':')[0], 'msg': 'after %s: %s' % (' '.join(done[-6:]), msg)}
            break
    stats['case'] = [config(spec)+'|'+','.join(done)] if n else []
    if n:
        stats['sample'] = json.dumps({'system': config(spec), 'operations': done})
    return v
