"""C03: approach and solver settings can be switched on a live system."""

from sim.history import gen_history, run_history
from sim.world import extreme, gen_spec

RUNS = 2400
RULE = ('a seed draws a system and a history of switches of approach, solver settings and integral treatment mixed with '
        'solves, edits and state restrictions; non-trivial if a solve after a switch was compared with a new system; '
        'distinct by configuration and operation sequence')


def gen(rng, tier, i):
    kinds = ('base', 'base', 'base', 'mb', 'elph', 'mbelph')
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if rng.random() < 0.75 else ('RTD', '2vN')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, nmax=rng.choice([2, 2, 3, 4]), mfree=0.12)
    if not spec['mfreeq'] and rng.random() < 0.15:
        extreme(rng, spec)
    n = rng.randint(3, 8) if tier == 'quick' else rng.randint(4, 14)
    w = {'edit': 0.7, 'direct': 0.4, 'solve': 4, 'set': 5, 'restrict': 0.7}
    return {'specs': [spec], 'ops': gen_history(rng, spec, n, w)}


def run(trace, stats):
    return run_history(trace, stats)
