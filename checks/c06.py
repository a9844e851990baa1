"""C06: a linear solve that fails is reported by success, warned about once and not contagious."""

import numpy as np

from sim import faults, lapack, ops
from sim.history import World, classify, equal, gen_history, opname, snapshot
from sim.ops import Live, apply
from sim.runner import bump, mark
from sim.world import FIRST, Skip, engines, fragile, gen_spec, is_py, nlead_par, nsingle_par, quiet

RUNS = 3600
RULE = ('a seed draws a system and a history of solves, edits, switches and restrictions in which some equations cannot be '
        'solved: the leads are decoupled or moved outside the bandwidth, or the LAPACK or numpy solver fails at one call, '
        'leaving nothing, garbage or a plausible vector behind; non-trivial if a failing solve was followed by one that was '
        'compared with a new system; distinct by configuration, operations and failures')
SHRINK = ('ops',)
STUBS = ('scipy.linalg.cython_lapack dgesv and dgelsd as seen by compiled code: pass-through until told to fail; '
         'numpy.linalg.solve/lstsq as seen by Python code: likewise')
ASSUMPTIONS = ['a failing LAPACK call sets info and may leave anything in its right-hand side']
TEXT = 'Could not solve the linear set of equations'


def gen_fail(rng):
    return {'first': rng.choice([0, 0, 0, 1, 2]), 'n': rng.choice([1, 1, 99]), 'how': rng.choice([0, 1, 1, 2]),
            'info': rng.choice([1, 1, 2, 3, -1, -4]), 'exc': rng.choice(['LinAlgError', 'LinAlgError', 'ValueError'])}


def gen_dead(rng, spec):
    """Edits that make the equation unsolvable, and the ones that undo it."""
    ns, nl = nsingle_par(spec), nlead_par(spec)
    how = rng.choice(['tleads', 'tleads', 'dlst', 'dlst', 'tleads-add'])
    if spec['kind'] in ('mb', 'mbelph'):
        how = 'dlst'
    if how.startswith('tleads'):
        return [{'o': 'dead', 'how': how, 'f': rng.choice(['dict', 'list', 'array'])}], [{'o': 'revive', 'how': 'tleads'}]
    d = rng.choice([5.0, 5.0, 50.0])
    return [{'o': 'dead', 'how': 'dlst', 'd': d}], [{'o': 'revive', 'how': 'dlst'}]


def gen(rng, tier, i):
    kinds = ('base', 'base', 'base', 'mb', 'elph', 'mbelph')
    r = rng.random()
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if r < 0.75 else ('RTD',) if r < 0.87 else ('2vN',)
    if apps[0] == 'RTD':
        kinds = ('base', 'base', 'mb')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, nmax=rng.choice([1, 2, 2, 3, 3]) if len(apps) > 1 else 2, mfree=0.0)
    n = rng.randint(2, 6) if tier == 'quick' else rng.randint(3, 12)
    lst = gen_history(rng, spec, n, {'edit': 1.5, 'direct': 0.5, 'solve': 4, 'set': 2, 'restrict': 0.8},
                      setting={'keys': ['kerntype', 'kerntype', 'symq', 'symq', 'norm_row', 'itype', 'solmethod', 'kcopy',
                                        'offdiag']})
    out = []
    undo = None
    for op in lst:
        r = rng.random()
        if r < 0.3 and undo is None:
            do, undo = gen_dead(rng, spec)
            out += do
            out += [{'o': 'solve', 'niter': 1} for _ in range(rng.choice([0, 1, 1, 2]))]
        elif r < 0.6 and undo is not None:
            out += undo
            undo = None
        if op['o'] == 'solve' and rng.random() < 0.5:
            out.append(dict(op, fail=gen_fail(rng)))
            if rng.random() < 0.5:
                out.append({'o': 'solve', 'niter': 1})
        else:
            out.append(op)
    if not any('fail' in op or op['o'] == 'dead' for op in out):
        out.append({'o': 'solve', 'niter': 1, 'fail': gen_fail(rng)})
    return {'specs': [spec], 'ops': out+(undo or []), 'sibling': rng.random() < 0.15}


# ---------------------------------------------------------------------------------------------------------------

def edit(live, name, how, fmt, vals):
    apply(live, {'o': 'edit', 'm': how, 'p': {name: {'f': fmt, 'v': vals}}, 'via': 'builder'})


def do_dead(live, op, w):
    m = live.model
    if op['how'] == 'dlst':
        if engines(m.set['kerntype']) not in FIRST:
            raise Skip
        w.saved['dlst'] = [list(x) for x in np.array(m.par['dlst'], dtype=float).tolist()]
        # the band of every lead shrinks to a point far below all transitions
        edit(live, 'dlst', 'change', 'list', [[-900.0-op['d'], -900.0] for _ in range(len(m.par['dlst']))])
        return
    if m.many:
        raise Skip
    w.saved['tleads'] = dict(m.par['tleads'])
    if op['how'] == 'tleads-add':
        edit(live, 'tleads', 'add', 'dict', [list(k)+[val(-v)] for k, v in m.par['tleads'].items()])
    else:
        edit(live, 'tleads', 'change', op['f'], [list(k)+[0.0] for k in m.par['tleads']])


def val(v):
    v = complex(v)
    return [v.real, v.imag] if v.imag else v.real


def do_revive(live, op, w):
    if op['how'] not in w.saved:
        raise Skip
    old = w.saved.pop(op['how'])
    if op['how'] == 'dlst':
        edit(live, 'dlst', 'change', 'list', old)
    else:
        edit(live, 'tleads', 'change', 'dict', [list(k)+[val(v)] for k, v in old.items()])


def solve(live, op, stats):
    """Returns (observation or None, number of solver calls that failed, index of the last failing call, calls)."""
    args = ops.solve_args(live, op)
    fl = op.get('fail')
    with quiet() as cap:
        try:
            if fl is None:
                live.b.solve(**args)
                return ops.solved(live, args), 0, -1, 0
            if is_py(live.model.set['kerntype']) or engines(live.model.set['kerntype']) == '2vN':
                f = Calls(fl)
                with faults.call_seam(f, ('solve', 'lstsq')):
                    live.b.solve(**args)
                n, failed, last = f.n, f.failed, f.last
            else:
                with lapack.failing(fl['first'], fl['first']+fl['n'], fl['how'], fl['info']) as f:
                    live.b.solve(**args)
                n, failed = f.calls, f.failed
                last = min(n, fl['first']+fl['n'])-1 if failed else -1
            if failed:
                bump(stats, 'faults_injected', 'lapack %d %d' % (fl['how'], fl['info']) if not isinstance(f, Calls) else
                     'numpy '+fl['exc'])
            return ops.solved(live, args), failed, last, n
        finally:
            live.out = cap.getvalue()


class Calls(object):
    """Fault of the call seam that hits a range of calls."""

    def __init__(self, fl):
        self.fl, self.n, self.failed, self.last = fl, 0, 0, -1

    def hit(self, where, frame=None):
        k = self.n
        self.n += 1
        if self.fl['first'] <= k < self.fl['first']+self.fl['n']:
            self.failed += 1
            self.last = k
            raise faults.EXC[self.fl['exc']]('injected fault')


def hopeless(live, op):
    """True if the equation has rows of zeros, which no rounding removes; decided on a new system."""
    m = live.model
    t = np.abs(np.array(live.b.leads.Tba0 if not m.many else live.b.leads.Tba))
    if np.any((t > 0) & (t < 1e-9)):
        return False        # amplitudes that a sum left instead of zero
    mm = m.copy()
    eng = engines(mm.set['kerntype'])
    if m.ph or eng not in ('Pauli', 'Lindblad', 'Redfield', '1vN') or not mm.set['symq'] or mm.set['mfreeq']:
        return False
    mm.set['kerntype'] = 'py'+eng
    mm.set['solmethod'] = 'solve'
    f = mm.fresh_solved()
    k = np.array(f.appr.kern)
    rows = [i for i in range(len(k)) if not np.any(k[i])]
    return len(set(rows)-{mm.set['norm_row']}) > 0 and live.b.funcp.solmethod == 'solve'


def judge(live, op, obs, failed, last, n, w, stats):
    b, m = live.b, live.model
    ok = bool(b.success)
    if failed and last == n-1 and ok:
        return 'unreported: the solver failed (call %d of %d) and success is %r' % (last+1, n, b.success)
    if not ok:
        if np.any(np.asarray(b.phi0) != 0) or np.any(np.isnan(np.asarray(b.phi0))):
            return 'stale: success is False and the occupations are %s' % np.array2string(np.asarray(b.phi0), precision=5)[:150]
        for k in ('current', 'energy_current', 'heat_current'):
            x = np.asarray(getattr(b, k))
            if np.any(np.isfinite(x) & (x != 0)):
                return 'stale: success is False and the %s is %s' % (k, np.array2string(x, precision=5)[:150])
        w.failures += 1
        bump(stats, 'failed_solves', 'injected' if failed else 'unsolvable')
    said = live.out.count(TEXT)
    bad = not ok or failed
    if bad and not w.warned and said != 1:
        return 'warning: the first failure is announced %d times' % said
    if said and (w.warned or not bad):
        return 'warning: announced again' if w.warned else 'warning: announced without a failure'
    w.warned = w.warned or bool(bad)
    if ok and not failed and obs is not None and not obs['stale'] and hopeless_cached(live, op, w):
        return 'unreported: the equation has rows of zeros and success is True'
    return None


def hopeless_cached(live, op, w):
    if not w.saved:
        return False
    return hopeless(live, op)


def run(trace, stats):
    spec = trace['specs'][0]
    w = World(trace, stats)
    w.saved, w.failures, w.warned = {}, 0, False
    live = Live(spec)
    v = None
    for op in list(trace['ops'])+[{'o': 'solve', 'niter': 1}]:
        m0 = live.model.copy()
        obs, msg, failed = None, None, 0
        try:
            if op['o'] == 'dead':
                do_dead(live, op, w)
                w.done.append('dead:'+op['how'])
                continue
            if op['o'] == 'revive':
                do_revive(live, op, w)
                w.done.append('revive:'+op['how'])
                continue
            if op['o'] == 'set' and op['k'] == 'kerntype' and 'dlst' in w.saved and engines(op['v']) not in FIRST:
                raise Skip
            if op['o'] != 'solve':
                apply(live, op)
                w.done.append(opname(op))
                continue
            before = snapshot(live)
            obs, failed, last, n = solve(live, op, stats)
            fl = op.get('fail')
            w.done.append(opname(op)+('!%s' % [fl[k] for k in sorted(fl)] if fl else ''))
        except Skip:
            bump(stats, 'skipped')
            continue
        except Exception as e:
            v = classify(live, m0, {k: x for k, x in op.items() if k != 'fail'}, e, stats)
            v['kind'] = 'raises '+v['kind']
            v['msg'] = 'after %s: %s' % (' '.join(w.done[-5:]), v['msg'])
            break
        if obs is None:
            continue
        msg = judge(live, op, obs, failed, last, n, w, stats)
        if msg is None:
            now = snapshot(live)
            for k, x in before.items():
                if k not in ('solmethod', 'norm_row') and not equal(x, now[k]):
                    msg = 'parameters: a solve changed %s from %s to %s' % (k, x, now[k])
                    break
        if msg is None and (obs['success'] or not failed):
            msg = ops.check_fresh(live, obs, stats)
            if msg is None and w.failures and obs['success']:
                w.nontrivial = True
        if msg is not None:
            v = {'kind': msg.split(':')[0], 'msg': 'after %s: %s' % (' '.join(w.done[-6:]), msg)}
            break
    if v is None and w.warned and trace.get('sibling'):
        v = sibling(trace, stats)
    w.finish(spec)
    return v


def sibling(trace, stats):
    """A second system of the same process is warned about on its own."""
    live = Live(trace['specs'][0])
    op = {'o': 'solve', 'niter': 1, 'fail': {'first': 0, 'n': 99, 'how': 1, 'info': 1, 'exc': 'LinAlgError'}}
    try:
        obs, failed, last, n = solve(live, op, stats)
    except Exception as e:
        return {'kind': 'raises', 'msg': 'a failing solve of a second system raises %s: %s' % (type(e).__name__, e)}
    w = World(trace, {})
    w.saved, w.failures, w.warned = {}, 0, False
    msg = judge(live, op, obs, failed, last, n, w, stats) if failed else None
    bump(stats, 'second_systems')
    return msg and {'kind': msg.split(':')[0], 'msg': 'second system of the process: '+msg}
