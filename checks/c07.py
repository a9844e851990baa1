"""C07: every successful solve conserves probability and charge."""

import numpy as np

from sim.history import gen_history, run_history
from sim.runner import bump
from sim.world import extreme, engines, fmtv, fragile, gen_spec, quiet, scales

RUNS = 3000
RULE = ('a seed draws a system and a history mixing edits, direct assignments, setting switches, state restrictions, '
        'partial and full solves; the conservation laws are checked as invariants after every successful solve; '
        'non-trivial if at least one solve after another operation was checked; distinct by configuration and operations')


def gen(rng, tier, i):
    kinds = ('base', 'base', 'base', 'mb', 'elph', 'mbelph')
    apps = ('Pauli', 'Lindblad', 'Redfield', '1vN') if rng.random() < 0.75 else ('RTD', '2vN')
    spec = gen_spec(rng, kinds=kinds, approaches=apps, nmax=rng.choice([2, 3, 3, 4]) if apps[0] != 'RTD' else 3,
                    mfree=0.05)
    if not spec['mfreeq'] and rng.random() < 0.25:
        extreme(rng, spec)
    n = rng.randint(2, 7) if tier == 'quick' else rng.randint(3, 14)
    w = {'edit': 3, 'direct': 1.5, 'solve': 4, 'set': 2, 'restrict': 1.5, 'burst': 0.5}
    return {'specs': [spec], 'ops': gen_history(rng, spec, n, w)}


def energy_conserved(m):
    return engines(m.set['kerntype']) in ('Pauli', 'Lindblad') and not m.ph


def laws(live, obs, stats):
    """The conservation laws after a solve that reports success."""
    m, b = live.model, live.b
    if obs is None or not obs['success']:
        return None
    g, eg = scales(m)
    # weak couplings and extreme parameters cost digits in the linear solve
    tol = 1e-3 if m.set['mfreeq'] else (1e-6 if m.s.get('regime') else 1e-8)
    if m.s.get('regime') and engines(m.set['kerntype']) == '2vN':
        tol = 1e-4
    low = 1.0 if m.s.get('regime') else 1e-3
    free = 2e-4 if m.set['mfreeq'] else 0.0     # the root finder stops at a residual of about 6e-6 per element
    n = b.si.nmany
    bad = None
    with quiet():
        if n <= 32:
            rho = np.array([[complex(b.get_phi0(k, l)) for l in range(n)] for k in range(n)])
        else:
            rho = np.diag([complex(b.get_phi0(k, k)) for k in range(n)])
    trace = np.sum(np.diag(rho))
    if not abs(trace-1) <= tol:
        bad = 'trace: the occupations sum to %s' % trace
    elif not np.max(np.abs(rho-rho.conj().T)) <= (1e-7 if m.s.get('regime') else 1e-10):
        bad = 'hermiticity: the density matrix is not Hermitian'
    bump(stats, 'laws_checked', 'density matrix')
    if bad is None and not obs.get('nocur') and obs['current'] is not None:
        I, J, Q = obs['current'], obs['energy_current'], obs['heat_current']
        if not np.all(np.isfinite(I)) or abs(np.sum(I)) > tol*max(np.max(np.abs(I)), low*g)+free:
            bad = 'charge: the particle currents %s sum to %s' % (fmtv(I), np.sum(I))
        elif not (np.all(np.isnan(J)) and np.all(np.isnan(Q)) and engines(m.set['kerntype']) == 'RTD'):
            if len(J) != len(I) or len(Q) != len(I) or not np.max(np.abs(Q-(J-mu_of(m)*I))) <= 1e-10*max(eg, np.max(np.abs(J))):
                bad = 'heat: the heat currents are %s instead of %s' % (fmtv(Q), fmtv(J-mu_of(m)*I))
            elif energy_conserved(m) and not abs(np.sum(J)) <= tol*max(np.max(np.abs(J)), low*eg)+free*eg/g:
                bad = 'energy: the energy currents %s sum to %s' % (fmtv(J), np.sum(J))
        bump(stats, 'laws_checked', 'currents')
        if energy_conserved(m):
            bump(stats, 'laws_checked', 'energy conservation')
    if bad is not None and fragile(m, obs.get('niter')):
        bump(stats, 'ill_conditioned')
        return None
    return bad


def mu_of(m):
    mu = np.array(m.par['mulst'])
    return np.concatenate((mu, mu)) if m.s['symmetry'] == 'spin' else mu


def run(trace, stats):
    return run_history(trace, stats, check=laws)
