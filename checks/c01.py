"""C01: an edited system solves like one built directly with those parameters."""

from sim.history import gen_history, run_history
from sim.world import extreme, gen_spec

RUNS = 1800
RULE = ('a seed draws a system (builder kind, approach, indexing, symmetry, formats) and a sequence of edits in every '
        'documented format, direct assignments and solves; a run is non-trivial if at least one solve after an edit was '
        'compared with a new system; distinct by configuration and operation sequence')


def gen(rng, tier, i):
    kinds = ('base', 'base', 'base', 'mb', 'elph', 'mbelph')
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if rng.random() < 0.85 else ('RTD', '2vN')
    if apps[0] == 'RTD':
        kinds = ('base', 'base', 'mb')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, nmax=4)
    if not spec['mfreeq'] and rng.random() < 0.15:
        extreme(rng, spec)
    n = rng.randint(3, 9) if tier == 'quick' else rng.randint(3, 16)
    w = {'edit': 5, 'direct': 2, 'solve': 4, 'set': 0.4, 'restrict': 0.4}
    if spec['kind'] in ('base', 'elph'):
        w['renew'] = 0.4
    lst = gen_history(rng, spec, n, w, setting={'keys': ['itype', 'symq', 'kerntype', 'mfreeq'][:3]})
    for op in lst:
        if op['o'] == 'edit' and op['m'] == 'add' and rng.random() < 0.08:
            # the values are added without being recorded
            op['via'], op['hide'] = 'sub', True
    return {'specs': [spec], 'ops': lst}


def run(trace, stats):
    return run_history(trace, stats)
