"""C02: solving again, or in stages, changes nothing."""

from sim import ops
from sim.history import equal, gen_history, run_history, snapshot
from sim.runner import bump
from sim.world import extreme, compare, gen_spec

RUNS = 1200
RULE = ('a seed draws a system and a history made of repeated solves, staged solves (diagonalise and rotate, master '
        'equation, currents, in all groupings) and edits in between; non-trivial if at least two solves of one parameter '
        'set were compared; distinct by configuration and operation sequence')


def gen(rng, tier, i):
    kinds = ('base', 'base', 'base', 'mb', 'elph', 'mbelph')
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if rng.random() < 0.75 else ('RTD', '2vN')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, nmax=4 if apps[0] != 'RTD' else 2, mfree=0.12)
    if not spec['mfreeq'] and rng.random() < 0.15:
        extreme(rng, spec)
    n = rng.randint(2, 4) if tier == 'quick' else rng.randint(3, 8)
    w = {'edit': 1, 'direct': 0.5, 'burst': 5, 'solve': 0.5, 'set': 0.3, 'restrict': 0.4}
    return {'specs': [spec], 'ops': gen_history(rng, spec, n, w)}


def run(trace, stats):
    mem = {'before': None, 'last': None}

    def before(live, op):
        if op['o'] == 'solve':
            ops.fix_norm_row(live)
            mem['before'] = snapshot(live)

    def after(live, op, obs):
        if op['o'] != 'solve':
            if op['o'] != 'sort':
                mem['last'] = None
            return None
        now = snapshot(live)
        for k, v in mem['before'].items():
            if k == 'solmethod' and (live.model.set[k] is None or not now['symq']):
                continue
            if not equal(v, now[k]):
                return 'parameters: solving changed %s from %s to %s' % (k, v, now[k])
        bump(stats, 'parameter_snapshots_compared')
        if obs is None or obs.get('stale') or not obs['success']:
            return None
        last = mem['last']
        if last is not None and not (last['nocur'] and not obs['nocur']):
            what = ('pop',) if obs['nocur'] else ('current', 'energy_current', 'heat_current', 'pop')
            if last['niter'] == obs['niter']:
                rtol = 1e-3 if live.model.set['mfreeq'] else 1e-8
                msg = compare(obs, last, live.model, rtol=rtol, what=what)
                bump(stats, 'repeats_compared')
                if msg is not None and not ops.fragile(live.model, obs.get('niter')):
                    return 'repeat: the same system solved again gives other results: %s' % msg
        if not obs['nocur'] or last is None:
            mem['last'] = obs
        return None
    return run_history(trace, stats, after=after, before=before)
