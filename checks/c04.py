"""C04: state restrictions behave the same whenever they are applied."""

import numpy as np

from sim.history import gen_history, run_history
from sim.ops import gen_edit, gen_restriction
from sim.runner import bump
from sim.world import Model, extreme, engines, fragile, gen_spec, mixed, quiet, tolerance

RUNS = 1300
RULE = ('a seed draws a system and a history of removals of states, coherences and Fock states, restorations and sorts '
        'mixed with solves, edits and switches; after every solve the results are compared with a new system on which the '
        'restrictions in force were applied once, and every element lookup with its own reference; non-trivial if a solve '
        'after a restriction was compared; distinct by configuration and operation sequence')


def gen(rng, tier, i):
    kinds = ('base', 'base', 'base', 'mb', 'elph', 'mbelph')
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if rng.random() < 0.82 else ('RTD', '2vN')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, nmax=rng.choice([2, 3, 3, 4]) if apps[0] != 'RTD' else 2,
                    mfree=0.04, nmax_py=rng.choice([2, 2, 3]))
    if not spec['mfreeq'] and rng.random() < 0.15:
        extreme(rng, spec)
    n = rng.randint(3, 8) if tier == 'quick' else rng.randint(4, 14)
    w = {'edit': 0.7, 'direct': 0.3, 'solve': 4, 'set': 0.9, 'restrict': 5}
    ops = gen_history(rng, spec, n, w, setting={'keys': ['kerntype', 'kerntype', 'symq', 'norm_row', 'itype']})
    if rng.random() < 0.3:
        # the same restriction before and after the energies move
        m = Model(spec)
        full = {'o': 'solve', 'niter': 1}
        r = gen_restriction(rng, m, ['rm_states', 'rm_coh', 'sort', 'sort'])
        if m.many:
            move = {'o': 'mb', 'p': 'Ea', 'how': 'assign',
                    'v': [round(rng.uniform(-1, 1)+0.5*c*(c-1), 3) for c in spec['Na']]}
        else:
            move = gen_edit(rng, m, adds=False, names=['hsingle'])
        again = dict(r) if rng.random() < 0.7 else gen_restriction(rng, m, [r['o']])
        k = rng.randint(0, len(ops))
        ops[k:k] = [full, r, full, move, full] + ([{'o': 'use_all'}] if rng.random() < 0.4 else []) + [again, full]
    return {'specs': [spec], 'ops': ([{'o': 'solve', 'niter': 1}] if rng.random() < 0.8 else []) + ops}


# ---------------------------------------------------------------------------------------------------------------
# lookups

def quantum_numbers(m, b):
    """Rows energy, charge[, sz[, ssq]] of every state, from the description of the system."""
    si = b.si
    n = si.nmany
    if m.many:
        return [list(m.s['Na'])]
    if si.indexing in ('sz', 'ssq'):
        qn = si.ind_qn
        rows = [[qn[i][k] for i in range(n)] for k in range(2 if si.indexing == 'sz' else 3)]
        return rows
    if si.indexing == 'charge' or m.fock:
        ch = np.zeros(n, dtype=int)
        for c, lst in enumerate(si.chargelst):
            for i in lst:
                ch[i] = c
        return [list(ch)]
    return [[bin(i).count('1') for i in range(n)]]


def sorted_right(order, keys, tol=1e-9):
    """True if the labels are ordered by these keys (most significant first), the energies up to rounding."""
    if sorted(order) != list(range(len(order))):
        return False
    for a, b in zip(order[:-1], order[1:]):
        for k in keys:
            d = float(k[b])-float(k[a])
            if d > tol:
                break
            if d < -tol:
                return False
        else:
            pass
    return True


def removed_pair(m, b, c):
    return any(abs(E[b]-E[c]) > dE for E, dE in m.coh)


def lookups(live, obs, stats, mem):
    """Every element of the density matrix under its label."""
    m, b = live.model, live.b
    if obs is None or not obs['success'] or obs.get('stale'):
        return None
    n = b.si.nmany
    if live.model.s['symmetry'] == 'spin' and mixed(m):
        return None
    order = list(b.si.states_order)
    if len(order) != n:
        return 'order: there are %d labels for %d states' % (len(order), n)
    ch = quantum_numbers(m, b)
    if m.order is None:
        if order != list(range(n)):
            return 'order: the labels are %s on an unsorted system' % order
    else:
        srt, E = m.order
        rows = [E]+ch
        if len(E) != n or max(srt) >= len(rows):
            return None
        if not sorted_right(order, [rows[k] for k in srt]):
            return 'order: the labels %s are not sorted by %s' % (order, srt)
    bump(stats, 'label_orders_checked')
    if n > 32:
        return None
    ref = live.model.copy()
    f = ref.fresh_solved(niter=obs.get('niter'))
    if f.si.indexing != b.si.indexing:
        # a system switched to 2vN keeps its indexing; a fresh one numbers the states differently
        return None
    if b.appr.phi1 is not None and obs.get('amp') is not None and not obs.get('nocur') and n <= 16 and \
            m.set['kerntype'].replace('py', '') in ('1vN', '2vN'):
        with quiet():
            msg = amplitudes(m, b, order, ch)
        if msg:
            return msg
        bump(stats, 'amplitude_sums_checked')
    full = None
    if m.coh:
        ref.coh = []
        full = ref.fresh_solved(niter=obs.get('niter'))
    if not f.success:
        return None
    tol = 10*tolerance(m)
    tot = 0.0
    bad = None
    with quiet():
        for k in range(n):
            for l in range(n):
                s, t = order[k], order[l]
                x, y = b.get_phi0(k, l), f.get_phi0(s, t)
                if k == l:
                    tot += x.real
                    if m.kept is not None and s not in m.kept and x != 0:
                        return 'lookup: state %d was removed, its occupation reads %s' % (s, x)
                if ch[0][s] == ch[0][t] and s != t and engines(m.set['kerntype']) in ('Redfield', '1vN', 'Lindblad'):
                    if removed_pair(m, s, t):
                        if x != 0:
                            return 'lookup: the coherence of states %d and %d was removed, it reads %s' % (s, t, x)
                    elif full is not None and x == 0 and full.success and abs(full.get_phi0(s, t)) > 1e-9:
                        return 'lookup: the coherence of states %d and %d was not removed, it reads 0' % (s, t)
                    z = b.get_phi0(l, k)
                    if abs(x-np.conj(z)) > 1e-10:
                        bad = bad or 'lookup: elements %s are not complex conjugates: %s, %s' % ((k, l), x, z)
                if abs(abs(x)-abs(y)) > tol:
                    bad = bad or 'lookup: element (%d, %d) reads %s instead of %s' % (k, l, x, y)
    bump(stats, 'lookups_checked')
    if abs(tot-1) > max(1e-6, tolerance(m)):
        bad = bad or 'lookup: the occupations under their labels sum to %s' % tot
    if bad and fragile(m, obs.get('niter')):
        return None
    return bad


def amplitudes(m, b, order, ch):
    """The current is the sum of the current amplitudes as they are read under their labels."""
    T = b.leads.Tba
    n = len(order)
    cur = np.zeros(T.shape[0])
    size = np.zeros(T.shape[0])
    for l in range(T.shape[0]):
        for i in range(n):
            for k in range(n):
                c, a = order[i], order[k]
                if ch[0][c] != ch[0][a]+1:
                    continue
                x = b.get_phi1(l, i, k)
                if m.kept is not None and (c not in m.kept or a not in m.kept) and x != 0:
                    return 'amplitude: state %d or %d was removed, the amplitude reads %s' % (c, a, x)
                if abs(np.conj(b.get_phi1(l, k, i)) - x) > 1e-12:
                    return 'amplitude: elements (%d, %d) are not complex conjugates' % (i, k)
                z = T[l, a, c]*x
                cur[l] += -2*z.imag
                size[l] += abs(z)
    if np.any(np.abs(cur-b.current) > 1e-9*(1+size)+1e-9*np.abs(b.current)):
        return 'amplitude: the amplitudes give the currents %s, the system reports %s' % (cur, b.current)
    return None


def run(trace, stats):
    mem = {}

    def after(live, op, obs):
        if op['o'] in ('rm_states', 'rm_coh', 'rm_fock', 'use_all', 'sort'):
            bump(stats, 'restrictions', op['o'])
        return lookups(live, obs, stats, mem)
    return run_history(trace, stats, after=after)
