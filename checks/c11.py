"""C11: a failed or interrupted edit never leaves the system half-edited."""

import numpy as np

from sim import faults, ops
from sim.history import World, classify, gen_history, opname
from sim.ops import Live, apply
from sim.runner import bump, forked, mark
from sim.world import ELEMS, LEADS, PH, Skip, engines, gen_spec, nlead_par, nsingle_par, quiet

RUNS = 2600
RULE = ('a seed draws a system and a history of edits, some of them rejected (bad key, index, value or shape beside correct '
        'parts) or cut short by an exception at one point of a seam (any Python line, any numpy or scipy call, any '
        'interpreter allocation), followed by solves, further edits and the correct edit; non-trivial if an edit failed and '
        'a later solve was compared; distinct by configuration, operations and fault points')
SHRINK = ('ops',)
STUBS = 'numpy and scipy functions called by qmeq are wrapped by pass-through seams while a fault is armed'


def gen_bad(rng, op):
    k = rng.choice(sorted(op['p']))
    return {'k': k, 'how': rng.choice(['index', 'length', 'value', 'none', 'shape', 'index', 'value', 'kwarg']),
            'at': round(rng.random(), 3)}


def gen_fault(rng):
    seam = rng.choice(['line', 'line', 'line', 'call', 'alloc'])
    if seam == 'alloc':
        return {'seam': seam, 'exc': 'MemoryError', 'frac': int(10**rng.uniform(0, 2.7))}
    return {'seam': seam, 'exc': rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']),
            'frac': round(rng.random(), 5)}


def gen(rng, tier, i):
    kinds = ('base', 'base', 'base', 'mb', 'elph', 'elph', 'mbelph')
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if rng.random() < 0.85 else ('RTD', '2vN')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, nmax=rng.choice([1, 2, 2, 3]) if apps[0] != 'RTD' else 2)
    n = rng.randint(2, 6) if tier == 'quick' else rng.randint(3, 10)
    w = {'edit': 5, 'direct': 0.5, 'solve': 2.5, 'set': 0.4, 'restrict': 0.3}
    out = []
    for op in gen_history(rng, spec, n, w):
        if op['o'] == 'edit' and rng.random() < 0.7:
            how = {'bad': gen_bad(rng, op)} if rng.random() < 0.45 else {'fault': gen_fault(rng)}
            op = dict(op, via='builder' if op.get('via') != 'sub' else 'sub')
            then = rng.choice(['solve', 'retry', 'retry', 'solve retry', 'again retry', ''])
            out.append(dict(op, **how))
            if 'again' in then:
                out.append(dict(op, fault=gen_fault(rng)))
            if 'solve' in then:
                out.append({'o': 'solve', 'niter': 1})
            if 'retry' in then and op['m'] == 'change':
                out.append(dict(op, retry=True))
                out.append({'o': 'solve', 'niter': 1})
        else:
            out.append(op)
    return {'specs': [spec], 'ops': out}


# ---------------------------------------------------------------------------------------------------------------

def spoil(op, args, m):
    """The arguments of an edit with one part made wrong; None if there is nothing wrong about it."""
    k, how, at = op['bad']['k'], op['bad']['how'], op['bad']['at']
    v = args[k]
    if how == 'kwarg':
        return dict(args, no_such_parameter=1.0)
    if isinstance(v, dict):
        keys = list(v)
        i = keys[int(at*len(keys)) % len(keys)]
        out = {}
        for key in keys:
            if key != i:
                out[key] = v[key]
                continue
            if how == 'index':
                out[key] = v[key]
                bad = tuple(list(i[:-1])+[77]) if isinstance(i, tuple) else 77
                out[bad] = v[key]
            elif how in ('length', 'shape') and isinstance(i, tuple):
                out[i[:-1]] = v[key]
            elif how in ('length', 'shape'):
                out[key] = (1.0, 2.0, 3.0)
            else:
                out[key] = None if how == 'none' else 'not a number'
        return dict(args, **{k: out})
    if isinstance(v, np.ndarray) and v.dtype != object:
        if how in ('index', 'length', 'shape'):
            return dict(args, **{k: np.ones(tuple(n+3 for n in v.shape), dtype=v.dtype)})
        w = np.array(v, dtype=object)
        w.flat[int(at*w.size) % w.size] = None if how == 'none' else 'not a number'
        return dict(args, **{k: w})
    if isinstance(v, (list, np.ndarray)):
        w = [list(x) if isinstance(x, (list, np.ndarray)) else x for x in v]
        j = int(at*len(w)) % len(w)
        if k in ELEMS:
            if how == 'index':
                w[j] = w[j][:-2]+[77]+w[j][-1:]
            elif how in ('length', 'shape'):
                w[j] = w[j][1:]
            else:
                w[j] = w[j][:-1]+[None if how == 'none' else 'not a number']
        elif how in ('index', 'length', 'shape'):
            w = w+w+w
        else:
            w[j] = None if how == 'none' else 'not a number'
        return dict(args, **{k: w})
    return dict(args, **{k: None if how == 'none' else 'not a number'}) if k != 'dlst' else None


def call(live, op, args):
    b, m = live.b, live.model
    if op.get('via') == 'sub':
        parts = [(b.qd, ('hsingle', 'coulomb')), (b.leads, ('tleads', 'mulst', 'tlst', 'dlst'))]
        if m.ph:
            parts.append((b.baths, ('velph', 'tlst_ph', 'dlst_ph')))
        for obj, names in parts:
            sub = {k: v for k, v in args.items() if k in names}
            if sub:
                getattr(obj, op['m'])(**sub)
    else:
        getattr(b, op['m'])(**args)


def reported(live):
    """The parameters the system reports, in the terms of the reference model."""
    b, m = live.b, live.model
    ns, nl = nsingle_par(m.s), nlead_par(m.s)
    out = {}
    if not m.many:
        for k in ELEMS:
            if k == 'velph' and not m.ph:
                continue
            d = getattr({'velph': b.baths if m.ph else None, 'tleads': b.leads}.get(k, b.qd), k)
            if m.s['symmetry'] == 'spin':
                lim = {'hsingle': (ns, ns), 'coulomb': (ns,)*4, 'tleads': (nl, ns), 'velph': (99, ns, ns)}[k]
                d = {i: v for i, v in d.items() if all(x < y for x, y in zip(i, lim))}
            out[k] = {tuple(int(x) for x in i): (complex(v) if np.iscomplexobj(v) else float(v)) for i, v in d.items()}
    else:
        out['Ea'], out['Tba'] = np.array(b.qd.Ea), np.array(b.leads.Tba)
        if m.ph:
            out['Vbbp'] = np.array(b.baths.Vbbp)
    for k in LEADS:
        out[k] = np.array(getattr(b.leads, k), dtype=float)[:nl]
    if m.ph:
        for k in PH:
            out[k] = np.array(getattr(b.baths, k), dtype=float)
    return out


def failing_edit(live, op, stats, w):
    """An edit that is rejected or cut short; returns (message, failed)."""
    m = live.model
    if m.many and any(k in ELEMS for k in op['p']):
        raise Skip
    args = ops.call_args(op, m)
    if 'bad' in op:
        if op['bad']['k'] not in args:
            raise Skip
        args = spoil(op, args, m)
        if args is None or (op.get('via') == 'sub' and op['bad']['how'] == 'kwarg'):
            raise Skip
        e = None
        with quiet():
            try:
                call(live, op, args)
            except Exception as x:
                e = x
        if e is None:
            bump(stats, 'bad_edits_accepted', '%s %s' % (op['bad']['k'], op['bad']['how']))
        else:
            bump(stats, 'edits_rejected', '%s %s' % (op['bad']['how'], type(e).__name__))
    else:
        fl = op['fault']
        with quiet():
            f, _, e = faults.inject(fl['seam'], fl['exc'], fl['frac'], lambda: call(live, op, args))
        if f.fired and e is not f.exc:
            return '%s: %s raised at %s during an edit, the caller got %r' % ('swallowed' if e is None else 'changed', fl['exc'],
                                                                             f.where, e), True
        if e is not None:
            bump(stats, 'edits_interrupted', '%s %s' % (fl['seam'], fl['exc']))
            mark(stats, 'fault_points', str(f.where)[:60])
    if e is None and 'bad' not in op:
        m.edit(op['m'], op['p'])
        return None, False
    w.intended = (op['m'], op['p'], m.copy())
    try:
        m.par = reported(live)
    except Exception as x:
        return 'reported: after a failed edit the parameters read %r' % x, True
    return None, True


def history(trace, stats):
    spec = trace['specs'][0]
    w = World(trace, stats)
    w.intended = None
    live = Live(spec)
    v, hurt = None, False
    for op in list(trace['ops'])+[{'o': 'solve', 'niter': 2}]:
        m0 = live.model.copy()
        obs, msg = None, None
        try:
            if 'bad' in op or 'fault' in op:
                msg, failed = failing_edit(live, op, stats, w)
                hurt = hurt or failed
                w.done.append('%s!%s' % (opname(op), op.get('bad') or op.get('fault')))
                if failed and 'bad' in op and msg is None and not buildable(live.model, stats):
                    break
            else:
                if op.get('retry'):
                    # as if the failed attempts had never happened
                    if w.intended is None or w.intended[1] != op['p']:
                        raise Skip
                    obs = apply(live, op)
                    ref = w.intended[2]
                    ref.edit(op['m'], op['p'])
                    live.model.par = ref.par
                    bump(stats, 'retries')
                else:
                    obs = apply(live, op)
                w.done.append(opname(op)+('*' if op.get('retry') else ''))
                if op['o'] in ('edit', 'assign', 'elem', 'dband', 'mb'):
                    w.intended = None
        except Skip:
            bump(stats, 'skipped')
            continue
        except Exception as e:
            v = classify(live, m0, op, e, stats)
            v['msg'] = 'after %s: %s' % (' '.join(w.done[-5:]), v['msg'])
            break
        if msg is None and obs is not None:
            msg = ops.check_fresh(live, obs, stats)
            if hurt:
                w.nontrivial = True
                bump(stats, 'solves_after_failed_edits')
        if msg is not None:
            v = {'kind': msg.split()[0].rstrip(':'), 'msg': 'after %s: %s' % (' '.join(w.done[-6:]), msg)}
            break
    w.finish(spec)
    return v


def buildable(m, stats):
    """False if the accepted values cannot be given to a new system either."""
    for k, v in m.par.items():
        if k in ('tlst', 'tlst_ph') and np.min(v) <= 0:
            bump(stats, 'nonsense_accepted_and_recorded')
            return False
        vals = list(v.values()) if isinstance(v, dict) else v
        if not np.all(np.isfinite(np.array(vals, dtype=complex))):
            bump(stats, 'nonsense_accepted_and_recorded')
            return False
    try:
        m.fresh()
        return True
    except Exception:
        bump(stats, 'nonsense_accepted_and_recorded')
        return False


def run(trace, stats):
    if any(op.get('fault', {}).get('seam') == 'alloc' for op in trace['ops']):
        # numpy itself does not survive every failing allocation: such runs are left out
        def child():
            st = {}
            return {'v': history(trace, st), 'stats': st}
        how, res = forked(child, 100.0)
        if how != 'ok':
            bump(stats, 'runs_left_out_numpy_died')
            return None
        stats.update(res['stats'])
        return res['v']
    return history(trace, stats)
