"""Operations on a system: generation (from a seed), application to the live system and to the reference model.

Every operation is a JSON object, stays meaningful when earlier operations are dropped (the minimiser relies on it) and
raises Skip where it does not apply.
"""

import numpy as np

from .world import (ELEMS, FIRST, LEADS, PH, Model, Skip, as_fmt, compare, cplx, engines, fragile, is_py, mat,
                    mat_json, nlead_par, nsingle_par, num, repeats, observe, phase, quiet)


class Live(object):
    """A live system together with its reference model."""

    def __init__(self, spec, name='s0'):
        self.name = name
        self.model = Model(spec)
        # An approach may be given by its class
        over = {'kerntype': self.model.approach(spec['kerntype'])} if spec.get('cls') else {}
        self.b = self.model.build(fmt=spec.get('fmt'), **over)
        self.out = ''
        self.user_warned = 0


# ---------------------------------------------------------------------------------------------------------------
# generation

def gen_edit(rng, m, adds=True, names=None):
    """An add() or change() call."""
    s = m.s
    ns, nl, nb = nsingle_par(s), nlead_par(s), s['nbaths']
    pool = list(names or (['mulst', 'tlst', 'dlst'] + ([] if m.many else ['hsingle', 'hsingle', 'coulomb', 'tleads',
                                                                          'tleads'])
                          + ((['tlst_ph', 'dlst_ph'] + ([] if m.many else ['velph'])) if m.ph else [])))
    how = rng.choice(['add', 'change'] if adds else ['change'])
    p = {}
    for k in rng.sample(sorted(set(pool)), min(len(set(pool)), rng.choice([1, 1, 1, 2, 3]))):
        p[k] = gen_value(rng, m, k, how, ns, nl, nb)
    p = {k: v for k, v in p.items() if v is not None}
    if not p:
        return gen_edit(rng, m, adds, ['mulst'])
    if how == 'add' and rng.random() < 0.25:
        tiny(rng, p)
    via = 'sub' if rng.random() < 0.15 else 'builder'
    return {'o': 'edit', 'm': how, 'p': p, 'via': via}


def tiny(rng, p):
    """Makes the additions so small that they are seen in the results, but not in a comparison with a coarse tolerance."""
    c = 10.0**-rng.choice([2, 3, 4, 5])

    def f(v):
        return round(v*c, 12) if not isinstance(v, list) else [f(x) for x in v]
    for k in sorted(p):
        if k in LEADS or k in PH:
            d = p[k]
            d['v'] = f(d['v']) if d['f'] != 'dict' else [[i, f(v)] for i, v in d['v']]
        elif k in ('hsingle', 'coulomb'):
            p[k]['v'] = [x[:-1]+[f(x[-1])] if x[0] == x[-2] else x for x in p[k]['v']]


def gen_value(rng, m, k, how, ns, nl, nb):
    s = m.s
    if k in LEADS or k in PH:
        n = nb if k in PH else nl
        lo, hi = {'mulst': (-1.5, 1.5), 'tlst': (0.3, 1.5), 'dlst': (15, 40), 'tlst_ph': (0.3, 1.2),
                  'dlst_ph': (8, 20)}[k]
        if how == 'add':
            lo, hi = (-0.7, 0.7) if k == 'mulst' else (0.05, 0.4)

        def one():
            v = num(rng, lo, hi)
            if k == 'dlst':
                return v if rng.random() < 0.7 else [-v, num(rng, lo, hi)]
            if k == 'dlst_ph':
                return [0.001 if how == 'change' else 0.0, v]
            return v
        f = rng.choice(['dict', 'dict', 'list', 'array', 'scalar'])
        if f == 'scalar':
            if k == 'dlst_ph':
                f = 'dict'
            else:
                return {'f': f, 'v': num(rng, lo, hi)}
        if f == 'dict':
            idx = rng.sample(range(n), rng.randint(1, n))
            return {'f': f, 'v': [[i, one()] for i in idx]}
        vals = [one() for _ in range(n)]
        if k == 'tlst':
            vals = repeats(rng, vals)
        if k == 'dlst':
            if any(isinstance(v, list) for v in vals):
                vals = [v if isinstance(v, list) else [-v, v] for v in vals]
        return {'f': f, 'v': vals}
    szfree = s['indexing'] == 'sz' and s['symmetry'] is None
    half = ns//2
    f = rng.choice(['dict', 'dict', 'list', 'array'])
    if k == 'hsingle':
        idx = [(i, i) for i in range(ns)] + [(i, j) for i in range(ns) for j in range(i+1, ns)
                                             if not szfree or (i < half) == (j < half)]
    elif k == 'tleads':
        idx = [(l, i) for l in range(nl) for i in range(ns) if not szfree or (l < nl//2) == (i < half)]
    elif k == 'velph':
        idx = [(b, i, j) for b in range(nb) for i in range(ns) for j in range(i+1)]
        if szfree:
            idx = [x for x in idx if (x[1] < half) == (x[2] < half)]
    else:
        idx = [tuple(x[:-1]) for x in s['coulomb']]
        if s['symmetry'] != 'spin':
            idx += [(i, j, j, i) for i in range(ns) for j in range(i+1, ns) if (i, j, j, i) not in idx]
        if not idx:
            return None
    pick = rng.sample(idx, rng.randint(1, min(3, len(idx))))
    items = []
    for i in pick:
        if k == 'hsingle':
            z = num(rng, -2, 2) if i[0] == i[1] else phase(rng, rng.uniform(0.05, 0.6), s['real'])
            if how == 'add' and i[0] == i[1]:
                z = num(rng, -0.6, 0.6)
            items.append(list(i)+[z])
            if not s['herm_hs'] and i[0] != i[1]:
                items.append([i[1], i[0], [z[0], -z[1]] if isinstance(z, list) else z])
        elif k == 'tleads':
            items.append(list(i)+[phase(rng, rng.uniform(0.06, 0.3), s['real'])])
        elif k == 'velph':
            z = num(rng, 0.2, 0.8) if i[1] == i[2] else phase(rng, rng.uniform(0.05, 0.4), s['real'])
            if i[1] != i[2]:
                items.append([i[0], i[2], i[1], [z[0], -z[1]] if isinstance(z, list) else z])
            items.append(list(i)+[z])
        else:
            v = num(rng, 0.3, 3.5) if how == 'change' else num(rng, -0.4, 0.6)
            if how == 'change' and rng.random() < 0.12:
                v = 0.0
            if len(set(i)) > 2:
                v = phase(rng, rng.uniform(0.1, 0.4), s['real'])
            items.append(list(i)+[v])
    if f == 'array' and how == 'change' and k == 'tleads' and rng.random() < 0.7:
        items = [list(i)+[phase(rng, rng.uniform(0.06, 0.3), s['real'])] for i in idx]
    if f == 'array' and how == 'change' and k == 'hsingle':
        items = [x for x in items if x[0] != x[1]] + [[i, i, num(rng, -2, 2)] for i in range(ns)]
    return {'f': f, 'v': items}


def gen_direct(rng, m):
    """Direct assignments and element assignments to parameters."""
    s = m.s
    names = ['mulst', 'tlst', 'dlst', 'dband'] + (['tlst_ph', 'dlst_ph'] if m.ph else [])
    if m.many:
        names += ['Ea', 'Ea', 'Tba', 'Tba'] + (['Vbbp'] if m.ph else [])
    k = rng.choice(names)
    if k in ('Ea', 'Tba', 'Vbbp'):
        if k == 'Ea':
            n = len(s['Ea'])
            if rng.random() < 0.5:
                return {'o': 'mb', 'p': 'Ea', 'how': 'assign', 'v': [round(rng.uniform(-1, 1)+0.5*c*(c-1), 3)
                                                                      for c in s['Na']]}
            i = rng.randrange(n)
            c = s['Na'][i]
            return {'o': 'mb', 'p': 'Ea', 'how': 'elem', 'i': i, 'v': round(rng.uniform(-1, 1)+0.5*c*(c-1), 3)}
        fct = [num(rng, 0.6, 1.4) for _ in range(s['nleads'] if k == 'Tba' else s['nbaths'])]
        return {'o': 'mb', 'p': k, 'how': rng.choice(['assign', 'elem']), 'v': fct}
    if k == 'dband':
        n = nlead_par(s)
        if rng.random() < 0.5:
            return {'o': 'dband', 'f': 'scalar', 'v': num(rng, 15, 40)}
        return {'o': 'dband', 'f': 'dict', 'v': [[rng.randrange(n), num(rng, 15, 40)]]}
    n = s['nbaths'] if k in PH else nlead_par(s)
    lo, hi = {'mulst': (-1.5, 1.5), 'tlst': (0.3, 1.5), 'dlst': (15, 40), 'tlst_ph': (0.3, 1.2),
              'dlst_ph': (8, 20)}[k]

    def one():
        v = num(rng, lo, hi)
        return [-v, num(rng, lo, hi)] if k == 'dlst' else ([0.001, v] if k == 'dlst_ph' else v)
    if rng.random() < 0.55:
        return {'o': 'elem', 'p': k, 'i': rng.randrange(n), 'v': one()}
    vals = [one() for _ in range(n)]
    op = {'o': 'assign', 'p': k, 'v': repeats(rng, vals) if k == 'tlst' else vals}
    r = rng.random()
    if r < 0.12 and k in ('mulst', 'tlst', 'dlst'):     # whole numbers, of integer type
        op.update(f='int', v=[[int(x) for x in v] if k == 'dlst' else max(1, round(v)) if k == 'tlst' else round(v)
                              for v in op['v']])
    elif r < 0.24 and k in ('mulst', 'tlst', 'tlst_ph'):
        op['f'] = rng.choice(['list', 'tuple', 'intlist'] if k == 'mulst' else ['list'])
        if op['f'] == 'intlist':
            op['v'] = [round(v) for v in op['v']]
    return op


def gen_solve(rng, m, full=0.7, niter=True):
    o = {'o': 'solve'}
    if rng.random() > full:
        how = rng.choice(['mu', 'stage1', 'stage2', 'nocur', 'norot', 'mu'])
        if how == 'mu':
            o['qdq'] = False
        elif how == 'stage1':
            o['masterq'] = False
        elif how == 'stage2':
            o['qdq'] = False
            o['rotateq'] = False
        elif how == 'nocur':
            o['currentq'] = False
        elif how == 'norot':
            o['rotateq'] = False
    if niter:
        o['niter'] = rng.choice([0, 1, 1, 2, 3]) or 1
    return o


def reduced(m):
    """True for an indexing that 2vN and RTD do not know: switching to them is refused."""
    s = m.s
    return s['kind'] == 'base' and (s['indexing'] == 'ssq' or s['indexing'] is None and s['symmetry'] == 'spin')


def allowed_kerntypes(m):
    """Approaches to which this system may be switched."""
    s = m.s
    ks = list(FIRST) + ['py'+k for k in FIRST]
    if s['kind'] == 'base' and s['nsingle'] <= 2 and s['indexing'] != 'Lin':
        ks += ['2vN', 'py2vN', 'RTD', 'pyRTD']
    elif s['kind'] == 'base' and s['nsingle'] <= 2:
        ks += ['2vN', 'py2vN']
    elif s['kind'] == 'base' and s['nsingle'] == 3 and s['indexing'] in (None, 'charge') or reduced(m):
        ks += ['RTD']
    if s['symmetry'] == 'spin' and s['indexing'] in ('charge', 'Lin'):
        ks = [k for k in ks if engines(k) != 'Pauli']
    if s['nsingle'] > 3:
        ks = [k for k in ks if not is_py(k)]
    return ks


def gen_setting(rng, m, keys=None, approaches=None):
    k = rng.choice(list(keys or ['kerntype', 'kerntype', 'kerntype', 'symq', 'symq', 'norm_row', 'solmethod', 'itype',
                                 'mfreeq', 'offdiag', 'kcopy']))
    if keys is None and engines(m.set['kerntype']) == '2vN' and rng.random() < 0.3:
        k = 'kpnt'
    if k == 'kerntype':
        ks = [x for x in allowed_kerntypes(m) if approaches is None or x in approaches]
        op = {'o': 'set', 'k': k, 'v': rng.choice(ks)}
        return dict(op, cls=True) if rng.random() < 0.2 else op
    if k == 'itype' and m.ph and rng.random() < 0.35 and (m.many or m.s['nsingle'] <= 2):
        return {'o': 'set', 'k': 'itype_ph', 'v': rng.choice([0, 2, 2])}
    v = {'symq': lambda: rng.random() < 0.5, 'norm_row': lambda: rng.choice([0, 1, 2]),
         'solmethod': lambda: rng.choice(['solve', 'lsqr', None]), 'itype': lambda: rng.choice([0, 1, 2, 3]),
         'mfreeq': lambda: rng.random() < 0.5, 'offdiag': lambda: rng.random() < 0.5,
         'kcopy': lambda: rng.random() < 0.5, 'kpnt': lambda: rng.choice([32, 48, 64])}[k]()
    return {'o': 'set', 'k': k, 'v': v}


def gen_restriction(rng, m, kinds=None):
    ks = list(kinds or ['rm_states', 'rm_states', 'rm_coh', 'rm_coh', 'use_all', 'use_all', 'rm_fock', 'sort'])
    k = rng.choice(ks)
    if k in ('rm_states', 'rm_coh'):
        return {'o': k, 'frac': round(rng.random(), 3)}
    if k == 'rm_fock':
        n = 2**m.s['nsingle'] if m.s['nsingle'] else 1
        return {'o': k, 'idx': sorted(rng.sample(range(n), rng.randint(1, max(1, n//4))))}
    if k == 'sort':
        return {'o': k, 'srt': rng.choice([[0], [1, 0], [1], None, [0, 1]] + ([[2, 1, 0], [2]] if m.s['indexing'] in ('sz', 'ssq') or m.s['symmetry'] else []))}
    return {'o': k}


def gen_odd(rng, m):
    """A solve with a value that does not fit the system: too few entries, a row that is no equation."""
    names = ['row', 'row', 'mulst', 'tlst', 'dlst'] + (['Ea', 'Tba'] if m.many else [])
    if m.ph:
        names += ['tlst_ph', 'dlst_ph'] + (['Vbbp'] if m.many else [])
    k = rng.choice(names)
    if k == 'row':
        return {'o': 'odd', 'p': k, 'v': rng.choice([-1, -2, -3, -5, -40, 3, 4, 5, 6, 8, 16, 17, 30, 64, 300])}
    return {'o': 'odd', 'p': k, 'frac': round(rng.random(), 3), 'niter': 1}


# ---------------------------------------------------------------------------------------------------------------
# application

def call_args(op, m):
    out = {}
    for k, e in op['p'].items():
        if k in ELEMS:
            out[k] = as_fmt(k, e['f'], e['v'], m)
        elif e['f'] == 'scalar':
            out[k] = e['v']
        elif e['f'] == 'dict':
            out[k] = {i: (tuple(v) if isinstance(v, list) else v) for i, v in e['v']}
        elif e['f'] == 'array':
            out[k] = np.array(e['v'], dtype=float)
        else:
            out[k] = [list(v) if isinstance(v, list) else v for v in e['v']]
    return out


def apply(live, op):
    """Applies one operation; returns what the caller saw (observation of a solve, or None)."""
    with quiet() as cap:
        try:
            return APPLY[op['o']](live, op)
        finally:
            live.out = cap.getvalue()


def op_edit(live, op):
    m, b = live.model, live.b
    if m.many and any(k in ELEMS for k in op['p']):
        raise Skip
    args = call_args(op, m)
    if op.get('via') == 'sub':
        parts = [(b.qd, ('hsingle', 'coulomb')), (b.leads, ('tleads', 'mulst', 'tlst', 'dlst'))]
        if m.ph:
            parts.append((b.baths, ('velph', 'tlst_ph', 'dlst_ph')))
        for obj, names in parts:
            sub = {k: v for k, v in args.items() if k in names}
            if op.get('hide') and sub:
                sub['updateq'] = False
                if obj is not b.qd:
                    sub['lstq'] = False
            if sub:
                getattr(obj, op['m'])(**sub)
    else:
        getattr(b, op['m'])(**args)
    m.edit(op['m'], op['p'], hide=op.get('hide') and op.get('via') == 'sub')


def op_assign(live, op):
    m, b, k = live.model, live.b, op['p']
    v = np.array(op['v'], dtype=float)
    full = np.concatenate((v, v)) if (m.s['symmetry'] == 'spin' and k in LEADS) else np.array(v)
    f = op.get('f')
    if f == 'int':
        full = full.astype(int)
    elif f == 'intlist':
        full = [int(x) for x in full]
    elif f is not None:
        full = {'list': list, 'tuple': tuple}[f](full.tolist())
    if k == 'dlst':
        b.leads.dlst = full
    elif k in PH:
        setattr(b.baths, k, full)
    else:
        setattr(b, k, full)
    m.par[k] = v


def op_elem(live, op):
    m, b, k, i = live.model, live.b, op['p'], op['i']
    obj = b.baths if k in PH else b.leads
    if i >= len(m.par[k]):
        raise Skip
    cur = getattr(obj, k)
    if isinstance(cur, tuple) or np.array(cur).dtype.kind == 'i':
        raise Skip              # the array of the user does not hold other values
    if k in ('mulst', 'tlst') and hasattr(b, k):
        getattr(b, k)[i] = op['v']
    else:
        getattr(obj, k)[i] = op['v']
    if m.s['symmetry'] == 'spin' and k in LEADS:
        getattr(obj, k)[i+nlead_par(m.s)] = op['v']
    m.par[k] = np.array(m.par[k])
    m.par[k][i] = op['v']


def op_dband(live, op):
    m, b = live.model, live.b
    e = {'f': op['f'], 'v': op['v']}
    b.dband = {i: v for i, v in op['v']} if op['f'] == 'dict' else op['v']
    m.par['dlst'] = m.lst_edit('change', 'dlst', e)


def op_mb(live, op):
    m, b, k = live.model, live.b, op['p']
    if not m.many:
        raise Skip
    cur = np.array(m.par[k])
    if k == 'Ea':
        if op['how'] == 'assign':
            cur = np.array(op['v'], dtype=float)
            b.Ea = np.array(cur)
        else:
            cur[op['i']] = op['v']
            b.Ea[op['i']] = op['v']
    else:
        for l, f in enumerate(op['v']):
            cur[l] *= f
        obj = b.leads if k == 'Tba' else b.baths
        if op['how'] == 'assign':
            setattr(obj, k, np.array(cur.real if m.s['real'] and np.all(cur.imag == 0) else cur))
        else:
            getattr(obj, k)[:] = cur
    m.par[k] = cur


def solve_args(live, op):
    """Arguments of the solve() call of an operation."""
    m = live.model
    fix_norm_row(live)
    args = {k: op[k] for k in ('qdq', 'rotateq', 'masterq', 'currentq') if k in op}
    if m.many:
        args['qdq'] = False
    eng = engines(m.set['kerntype'])
    if eng == '2vN':
        args['niter'] = op.get('niter', 2)
        args.pop('currentq', None)
        if args.get('masterq') is False:
            args.pop('niter')
    if m.diagH is None and not m.many and not (args.get('qdq', True) and args.get('rotateq', True)):
        raise Skip      # nothing has been diagonalised yet
    return args


def op_solve(live, op):
    args = solve_args(live, op)
    live.b.solve(**args)
    return solved(live, args)


def solved(live, args):
    """What a completed solve showed."""
    m = live.model
    m.did_solve(args.get('qdq', True), args.get('rotateq', True))
    m.nsolve += 1
    if args.get('masterq', True) is False:
        return None
    o = observe(live.b)
    o['stale'] = not m.clean() and not m.many
    o['niter'] = args.get('niter')
    o['nocur'] = args.get('currentq', True) is False
    return o


def fix_norm_row(live):
    """The row replaced by the normalisation condition has to be the row of a population."""
    m = live.model
    n = m.npauli()
    if m.set['norm_row'] >= n:
        live.b.norm_row = 0
        m.set['norm_row'] = 0


def op_set(live, op):
    m, b, k, v = live.model, live.b, op['k'], op['v']
    if k == 'kerntype':
        if v not in allowed_kerntypes(m):
            raise Skip
        if m.set['mfreeq'] and engines(v) in ('RTD', '2vN'):
            b.mfreeq = False
            m.set['mfreeq'] = False
        special = reduced(m) and engines(v) in ('2vN', 'RTD')
        cls = op.get('cls') and not special
        if special:
            try:
                b.kerntype = v
            except ValueError:
                return      # refused: everything stays as it was
        else:
            b.kerntype = m.approach(v) if cls else v
        if v != m.set['kerntype'] or cls:
            m.set['kcopy'] = False
            if m.set['kcopy']:
                b.make_kern_copy = True
        m.set[k] = v
        return
    if k == 'mfreeq':
        if v and engines(m.set['kerntype']) in ('RTD', '2vN'):
            raise Skip
        b.mfreeq = v
        m.set[k] = v
        if (m.set['solmethod'] in ('solve', 'lsqr')) == bool(v):
            m.set['solmethod'] = None
        return
    if k == 'solmethod':
        if m.set['mfreeq'] and v in ('solve', 'lsqr'):
            raise Skip
        if not m.set['mfreeq'] and v not in ('solve', 'lsqr', None):
            raise Skip
        b.solmethod = v
    elif k == 'offdiag':
        b.off_diag_corrections = v
    elif k == 'itype_ph':
        b.funcp.itype_ph = v
    elif k == 'kcopy':
        b.make_kern_copy = v
    elif k == 'norm_row':
        if v >= m.npauli():
            v = 0
        b.norm_row = v
    else:
        setattr(b, k, v)
    m.set[k] = v


def op_rm_states(live, op):
    m = live.model
    E, dE = m.threshold(op['frac'])
    live.b.remove_states(dE)
    m.kept = m.keep_below(E, dE)
    m.coh = []


def op_use_all(live, op):
    live.b.use_all_states()
    live.model.kept = None
    live.model.coh = []


def op_rm_coh(live, op):
    m = live.model
    E, dE = m.coh_threshold(op['frac'])
    live.b.remove_coherences(dE)
    m.coh = m.coh + [(E, dE)]


def op_rm_fock(live, op):
    m = live.model
    if m.many or live.b.si.indexing == 'ssq' or m.s['symmetry'] == 'spin':
        raise Skip
    if any(m.hid.values()):
        raise Skip      # the matrices are made again from the recorded values
    if len(m.fock | set(op['idx'])) > 2**m.s['nsingle']//2:
        raise Skip
    live.b.remove_fock_states(list(op['idx']))
    m.fock = m.fock | set(op['idx'])
    m.kept, m.coh = None, []
    m.order = m.diagH = m.rot = None      # energies are not known until the next diagonalisation


def op_sort(live, op):
    m = live.model
    if m.energies() is None:
        raise Skip
    live.b.sort_eigenstates(None if op['srt'] is None else list(op['srt']))
    m.order = None if op['srt'] is None else (list(op['srt']), m.energies())


def op_odd(live, op):
    """Solves with a value that does not fit and puts the old value back; live.odd holds what happened."""
    m, b, k = live.model, live.b, op['p']
    args = solve_args(live, dict(op, niter=1))
    if k == 'row':
        if m.set['mfreeq']:
            raise Skip
        old, obj, name = m.set['norm_row'], b, 'norm_row'
        new = op['v']
    else:
        obj = b.qd if k == 'Ea' else b.baths if k in PH or k == 'Vbbp' else b.leads
        name = k
        if (k in ('Ea', 'Tba', 'Vbbp') and not m.many) or not hasattr(obj, k):
            raise Skip
        old = np.array(getattr(obj, k))
        new = np.array(old[:int(op['frac']*len(old))])
    try:
        setattr(obj, name, new)
        live.b.solve(**args)
        live.odd = 'success %s' % bool(b.success)
    except Exception as e:
        live.odd = type(e).__name__
    finally:
        setattr(obj, name, old)
    if not m.many:
        m.diagH = m.rot = None      # the next solve has to diagonalise


def gen_renew(rng, m):
    """New couplings instead of changed ones, or the couplings of the Fock basis for the next calculation."""
    s = m.s
    if rng.random() < 0.35:
        return {'o': 'fockbasis'}
    k = 'velph' if m.ph and rng.random() < 0.4 else 'tleads'
    e = gen_value(rng, m, k, 'change', nsingle_par(s), nlead_par(s), s['nbaths'])
    return {'o': 'renew', 'p': k, 'f': e['f'], 'v': e['v']}


def op_renew(live, op):
    m, b, k = live.model, live.b, op['p']
    if m.many or k == 'velph' and not m.ph:
        raise Skip
    v = as_fmt(k, op['f'], op['v'], m)
    if k == 'tleads':
        b.leads.update_Tba0(b.leads.si.nleads, v, b.leads.mtype)
    else:
        b.baths.update_Vbbp0(b.baths.si.nbaths, v, b.baths.mtype)
    m.par[k] = {tuple(x[:-1]): cplx(x[-1]) for x in op['v']}
    m.hid = {i: x for i, x in m.hid.items() if i[0] != k}


def op_fockbasis(live, op):
    m, b = live.model, live.b
    if m.many:
        raise Skip
    b.leads.use_Tba0()
    if m.ph:
        b.baths.use_Vbbp0()
    m.rot = None


APPLY = {'renew': op_renew, 'fockbasis': op_fockbasis, 'odd': op_odd, 'edit': op_edit, 'assign': op_assign, 'elem': op_elem, 'dband': op_dband, 'mb': op_mb, 'solve': op_solve,
         'set': op_set, 'rm_states': op_rm_states, 'use_all': op_use_all, 'rm_coh': op_rm_coh, 'rm_fock': op_rm_fock,
         'sort': op_sort}


def npauli(m):
    """Number of populations of the present system."""
    key = (tuple(sorted(m.fock)), m.kept)
    cache = m.__dict__.setdefault('_npauli', {})
    if key not in cache:
        with quiet():
            mm = m.copy()
            mm.coh = []
            if engines(mm.set['kerntype']) not in FIRST:
                mm.set['kerntype'] = 'Pauli'
            cache[key] = mm.fresh().si.npauli
    return cache[key]


Model.npauli = npauli


# ---------------------------------------------------------------------------------------------------------------
# oracle: a fresh system

def check_fresh(live, obs, stats=None, rtol=None, coh=True):
    """Compares what a solve of the live system showed with a new system; returns a message or None."""
    if obs is None or obs.get('stale'):
        return None
    m = live.model
    if engines(m.set['kerntype']) == 'RTD' and any(k == 'tleads' and v for (k, _), v in m.hid.items()):
        return None         # RTD uses the recorded amplitudes as well
    f = m.fresh_solved(niter=obs.get('niter'))
    other = getattr(f.si, 'indexing', None) != getattr(live.b.si, 'indexing', None)
    if other and (m.kept is not None or m.coh or m.fock):
        return None         # a new system uses other numbers for the states
    ref = observe(f)
    if not ref['success']:
        return None
    if stats is not None:
        stats['compared'] = stats.get('compared', 0)+1
    msg = None
    if not obs['success']:
        msg = 'the solve reports failure, a new system solves'
    else:
        what = ('pop',) if obs.get('nocur') else ('current', 'energy_current', 'heat_current', 'pop')
        if other:
            what, coh = tuple(k for k in what if k != 'pop'), False
        if 'settings' in obs and obs['settings'] != ref['settings']:
            d = ['%s is %r instead of %r' % (k, obs['settings'].get(k), v) for k, v in ref['settings'].items()
                 if obs['settings'].get(k) != v]
            return 'settings: the system reports %s' % ', '.join(d)
        msg = compare(obs, ref, m, rtol=rtol, what=what, coh=coh)
    if msg is not None:
        if fragile(m, obs.get('niter'), rtol=rtol, coh=coh):
            if stats is not None:
                stats['ill_conditioned'] = stats.get('ill_conditioned', 0)+1
            return None
    return msg
