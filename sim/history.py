"""Histories of operations on one system, checked against a new system after every solve."""

import json

import numpy as np

from . import ops
from .ops import Live, apply
from .runner import bump, mark
from .world import Model, Skip, engines, gen_spec, quiet


FULL, MU = {'o': 'solve'}, {'o': 'solve', 'qdq': False}
DIAG, MASTER = {'o': 'solve', 'masterq': False}, {'o': 'solve', 'qdq': False, 'rotateq': False}
NOCUR = {'o': 'solve', 'currentq': False}
BURSTS = [[FULL, FULL], [FULL, FULL, FULL], [DIAG, MASTER], [DIAG, MU], [NOCUR, FULL], [FULL, MASTER], [FULL, MASTER, MASTER],
          [DIAG, DIAG, MASTER], [NOCUR, MASTER], [FULL, NOCUR, MU], [DIAG, dict(MASTER, currentq=False), MASTER],
          [FULL, DIAG, MASTER, FULL], [MU, MU], [MASTER, MASTER, MASTER]]


def gen_history(rng, spec, n, weights, edit=None, restriction=None, setting=None, solve=None):
    """A list of operations; generated against the initial model only, so that any subsequence is meaningful."""
    m = Model(spec)
    out = []
    kinds, w = zip(*sorted(weights.items()))
    for _ in range(n):
        k = rng.choices(kinds, w)[0]
        if k == 'edit':
            if m.many:
                op = ops.gen_edit(rng, m, names=['mulst', 'tlst', 'dlst'] + (['tlst_ph', 'dlst_ph'] if m.ph else []))
            else:
                op = ops.gen_edit(rng, m, **(edit or {}))
        elif k == 'direct':
            op = ops.gen_direct(rng, m)
        elif k == 'solve':
            op = ops.gen_solve(rng, m, **(solve or {}))
        elif k == 'set':
            op = ops.gen_setting(rng, m, **(setting or {}))
        elif k == 'renew':
            op = ops.gen_renew(rng, m)
        elif k == 'odd':
            op = ops.gen_odd(rng, m)
        elif k == 'restrict':
            op = ops.gen_restriction(rng, m, **(restriction or {}))
        elif k == 'burst':
            # the same solve again, or the stages of one solve
            op = rng.choice(BURSTS)
            out.extend(dict(o, niter=2) for o in op[:-1])
            op = dict(op[-1], niter=2)
        out.append(op)
    return out


def config(spec):
    return '%s/%s/%s/%s/n%d' % (spec['kind'], spec['kerntype'], spec['indexing'],
                                spec['symmetry'], spec['nsingle'] or len(spec.get('Ea', ())))


def opname(op):
    k = op['o']
    if k == 'edit':
        return '%s:%s' % (op['m'], '+'.join('%s/%s' % (p, e['f']) for p, e in sorted(op['p'].items())))
    if k == 'set':
        return 'set:%s=%s' % (op['k'], op['v'])
    if k == 'renew':
        return 'renew:%s/%s' % (op['p'], op['f'])
    if k == 'odd':
        return 'odd:'+op['p']
    if k in ('assign', 'elem', 'mb'):
        return '%s:%s%s' % (k, op['p'], op.get('how', ''))
    if k == 'solve':
        return 'solve' + ''.join('-'+x for x in ('qdq', 'rotateq', 'masterq', 'currentq') if op.get(x) is False)
    return k


class World(object):
    """Bookkeeping of one simulated history."""

    def __init__(self, trace, stats):
        self.trace, self.stats = trace, stats
        self.done = []
        self.nontrivial = False

    def finish(self, spec):
        st = self.stats
        st['case'] = [config(spec)+'|'+','.join(self.done)] if self.nontrivial else []
        if self.nontrivial:
            st['sample'] = json.dumps({'system': config(spec), 'operations': self.done})


def run_history(trace, stats, oracle=None, check=ops.check_fresh, final=True, after=None,
                before=None):
    """Applies the operations of a trace to one live system; every solve is compared with a new system."""
    spec = trace['specs'][0]
    w = World(trace, stats)
    try:
        live = Live(spec)
    except Exception as e:
        bump(stats, 'invalid_worlds')
        return 'build: the system cannot be constructed: %r' % e
    lst = list(trace['ops'])
    if final:
        lst.append({'o': 'solve', 'niter': 2})
    v = None
    for k, op in enumerate(lst):
        m0 = live.model.copy()
        if before is not None:
            before(live, op)
        try:
            obs = apply(live, op)
        except Skip:
            bump(stats, 'skipped')
            continue
        except Exception as e:
            v = classify(live, m0, op, e, stats)
            break
        bump(stats, 'operations', opname(op).split(':')[0].split('-')[0])
        w.done.append(opname(op))
        mark(stats, 'configs', config(spec))
        if obs is not None:
            msg = check(live, obs, stats)
            if msg is not None:
                v = {'kind': msg.split()[0].rstrip(':'), 'msg': 'after %s: %s' % (' '.join(w.done[-6:]), msg)}
                break
            if len(w.done) > 1:
                w.nontrivial = True
        if after is not None:
            msg = after(live, op, obs)
            if msg is not None:
                v = {'kind': msg.split(':')[0], 'msg': 'after %s: %s' % (' '.join(w.done[-6:]), msg)}
                break
    w.finish(spec)
    return v


def classify(live, before, op, e, stats):
    """An exception out of an operation: a violation unless a new system raises it as well."""
    name = opname(op)
    if op['o'] == 'solve':
        try:
            f = live.model.fresh()
            with quiet():
                f.solve(**live.model.solve_args(op.get('niter')))
        except Exception as e2:
            if type(e2) is type(e):
                bump(stats, 'invalid_worlds')
                if live.model.s.get('regime'):
                    return None     # parameters for which the approach is not made
                return {'kind': 'fresh', 'msg': 'a new system with these parameters raises %r' % e2}
    return {'kind': 'exception', 'msg': '%s raises %s: %s' % (name, type(e).__name__, e)}


PARAMS = ('hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dlst', 'velph', 'tlst_ph', 'dlst_ph')


def snapshot(live):
    b = live.b
    out = {}
    for k in PARAMS:
        try:
            v = getattr(b, k)
        except AttributeError:
            continue
        out[k] = dict(v) if isinstance(v, dict) else np.array(v)
    if live.model.many:
        out['Ea'], out['Tba'] = np.array(b.Ea), np.array(b.leads.Tba)
        if live.model.ph:
            out['Vbbp'] = np.array(b.baths.Vbbp)
    for k in ('kpnt', 'symq', 'norm_row', 'itype', 'mfreeq', 'solmethod'):
        out[k] = getattr(b.funcp, k)
    out['tleads_array'] = np.array(b.leads.tleads_array)
    out['Tba0'] = None if live.model.many else np.array(b.leads.Tba0)
    return out


def equal(x, y):
    if isinstance(x, dict) or x is None or isinstance(x, (bool, int, str)):
        return x == y
    return np.shape(x) == np.shape(y) and np.array_equal(x, y)
