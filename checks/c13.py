"""C13: the compiled and the pure Python engine of an approach never diverge."""

from sim.history import World, gen_history, opname
from sim.ops import Live, allowed_kerntypes, apply
from sim.runner import bump, mark
from sim.world import Model, Skip, compare, engines, extreme, fragile, gen_spec, tolerance

RUNS = 2400
RULE = ('a seed draws a system and a history of edits, setting changes, restrictions and solves; two replicas, one with the '
        'compiled and one with the pure Python engine, execute it in lockstep and are compared after every solve; '
        'non-trivial if at least one solve after another operation was compared; distinct by configuration and operations')


def gen(rng, tier, i):
    kinds = ('base', 'base', 'mb', 'elph', 'mbelph')
    r = rng.random()
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if r < 0.8 else (('RTD',) if r < 0.92 else ('2vN',))
    if apps[0] == 'RTD':
        kinds = ('base', 'base', 'mb')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, py=0.0, nmax=rng.choice([2, 2, 3]) if apps[0] not in ('RTD', '2vN') else 2,
                    mfree=0.0)
    if spec['nsingle'] > 2 and spec['nleads'] > 3 and spec['symmetry'] is None:
        spec['itype'] = rng.choice([1, 2])
    if rng.random() < 0.3:
        extreme(rng, spec)
    n = rng.randint(2, 6) if tier == 'quick' else rng.randint(2, 10)
    w = {'edit': 2, 'direct': 1, 'solve': 4, 'set': 1.5, 'restrict': 1.2, 'burst': 0.3, 'odd': 0.6}
    ops = gen_history(rng, spec, n, w, setting={'keys': ['kerntype', 'kerntype', 'symq', 'symq', 'norm_row', 'itype',
                                                         'solmethod', 'offdiag', 'kcopy']})
    return {'specs': [spec], 'ops': ops}


def engine(spec_or_op, key, py):
    d = dict(spec_or_op)
    d[key] = ('py' if py else '')+engines(d[key])
    return d


def run(trace, stats):
    spec = trace['specs'][0]
    w = World(trace, stats)
    twins = []
    for py in (False, True):
        try:
            twins.append(Live(engine(spec, 'kerntype', py)))
        except Exception as e:
            return 'build: the system cannot be constructed: %r' % e
    if spec.get('regime'):
        mark(stats, 'regimes', spec['regime'])
    v = None
    for op in list(trace['ops'])+[{'o': 'solve', 'niter': 2}]:
        if op['o'] == 'set' and op['k'] == 'kerntype' and \
                any(p+engines(op['v']) not in allowed_kerntypes(twins[0].model) for p in ('', 'py')):
            bump(stats, 'skipped')
            continue
        res = []
        for py, t in enumerate(twins):
            o = engine(op, 'v', py) if op['o'] == 'set' and op['k'] == 'kerntype' else op
            try:
                res.append(('ok', apply(t, o)))
            except Skip:
                res.append(('skip', None))
            except Exception as e:
                res.append(('exc', e))
        a, b = res
        if a[0] == 'skip' and b[0] == 'skip':
            bump(stats, 'skipped')
            continue
        w.done.append(opname(op))
        mark(stats, 'engines', engines(twins[0].model.set['kerntype'])+'/'+spec['kind'])
        if a[0] != b[0]:
            v = {'kind': 'exception', 'msg': 'after %s: compiled %s, Python %s' %
                 (w.done[-6:], a[1] if a[0] == 'exc' else a[0], b[1] if b[0] == 'exc' else b[0])}
            break
        if a[0] == 'exc':
            if spec.get('regime'):
                bump(stats, 'invalid_worlds')
                break               # parameters for which the approach is not made
            v = {'kind': 'both', 'msg': 'after %s: both engines raise %r' % (w.done[-6:], a[1])}
            break
        x, y = a[1], b[1]
        if op['o'] == 'odd':
            x, y = twins[0].odd, twins[1].odd
            bump(stats, 'values_that_do_not_fit', y)
            if y == 'IndexError' and x != y:
                v = {'kind': 'range', 'msg': 'after %s: a value that does not fit (%s): compiled %s, Python %s' %
                     (' '.join(w.done[-6:]), op, x, y)}
                break
            continue
        if x is None:
            continue
        m = twins[0].model
        msg = None
        if x['success'] != y['success']:
            msg = 'success: compiled %s, Python %s' % (x['success'], y['success'])
        elif x['success']:
            bump(stats, 'solves_compared')
            if len(w.done) > 1:
                w.nontrivial = True
            what = ('pop',) if x.get('nocur') else ('current', 'energy_current', 'heat_current', 'pop')
            msg = compare(x, y, m, what=what, rtol=max(tolerance(m), 1e-3 if m.set['mfreeq'] else 0))
            if msg is not None:
                msg = msg.split()[0]+': compiled engine: '+msg
        if msg is not None:
            if fragile(m, x.get('niter')) or fragile(twins[1].model, x.get('niter')):
                bump(stats, 'ill_conditioned')
                continue
            v = {'kind': msg.split(':')[0], 'msg': 'after %s: %s' % (' '.join(w.done[-6:]), msg)}
            break
    w.finish(spec)
    return v
