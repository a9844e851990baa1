"""System descriptions, the executable reference model, operations and their application.

A *spec* is a JSON object that describes a system completely.  The *Model* holds what a user of the library would say
the system currently is: parameters, settings and the restrictions in force.  `Model.fresh()` builds a new system from
it; that new system is the oracle for most properties.
"""

import contextlib
import copy
import io
import sys
import warnings

import numpy as np

warnings.simplefilter('ignore')

import qmeq                                                     # noqa: E402
from qmeq.builder.builder_base import BuilderBase, BuilderManyBody   # noqa: E402
from qmeq.builder.builder_elph import BuilderElPh, BuilderManyBodyElPh  # noqa: E402
from qmeq.specfunc import Func as CFunc                         # noqa: E402

FIRST = ['Pauli', 'Lindblad', 'Redfield', '1vN']
LEADS = ('mulst', 'tlst', 'dlst')
PH = ('tlst_ph', 'dlst_ph')
ELEMS = ('hsingle', 'coulomb', 'tleads', 'velph')


class Skip(Exception):
    """The operation does not apply in the present state (it is dropped from both worlds)."""


# ---------------------------------------------------------------------------------------------------------------
# numbers

def cplx(v):
    if isinstance(v, (list, tuple)):
        return complex(v[0], v[1])
    return v


def num(rng, lo, hi, nd=3):
    v = round(rng.uniform(lo, hi), nd)
    return v if v != 0 else round((lo+hi)/2+0.137, nd)


def repeats(rng, vals, p=0.3):
    """Sometimes only two different values: leads of equal and of unequal temperature take different paths."""
    return [rng.choice(vals[:2]) for _ in vals] if rng.random() < p else vals


def phase(rng, mag, real=False):
    """A complex amplitude of about this magnitude, sometimes real."""
    if real or rng.random() < 0.5:
        return round(mag*rng.choice([-1, 1]), 4)
    import cmath
    z = cmath.rect(mag, rng.uniform(0, 6.283))
    return [round(z.real, 4), round(z.imag, 4)]


# ---------------------------------------------------------------------------------------------------------------
# bath functions

class faults_hook(object):
    """The fault armed at the bath functions, if any (see sim.faults)."""
    active = None


class BathConst(CFunc):
    def eval(self, x):
        if faults_hook.active is not None:
            faults_hook.active.hit("bath", sys._getframe(0))
        return 0.013


class BathOhmic(CFunc):
    def eval(self, x):
        if faults_hook.active is not None:
            faults_hook.active.hit("bath", sys._getframe(0))
        return 0.008*abs(x)/(1.0+x*x/400.0)


BATHS = {'const': BathConst, 'ohmic': BathOhmic}


# ---------------------------------------------------------------------------------------------------------------
# specs

def engines(name):
    return name[2:] if name.startswith('py') else name


def is_py(name):
    return name.startswith('py')


def gen_spec(rng, kinds=('base',), approaches=('Pauli', 'Lindblad', 'Redfield', '1vN'), py=0.35, nmax=4, nmax_py=2,
             itypes=(0, 1, 2, 3), mfree=0.0, spin=0.2, leads=(2, 2, 2, 3, 3, 4), sett=0.5, nonherm=0.15):
    kind = rng.choice(list(kinds))
    apps = list(approaches)
    if kind != 'base':
        apps = [a for a in apps if a in FIRST or (a == 'RTD' and kind == 'mb')] or list(FIRST)
    app = rng.choice(apps)
    pyq = rng.random() < py
    s = {'kind': kind}
    spinq = kind in ('base', 'elph') and app in FIRST and rng.random() < spin
    many = kind in ('mb', 'mbelph')
    if app in ('2vN', 'RTD'):
        nmax = min(nmax, 2 if (pyq or app == '2vN') else 3)
    if pyq or kind == 'elph':
        nmax = min(nmax, nmax_py if pyq else 3)
    if spinq:
        n = 2 if (nmax < 4 or rng.random() < 0.6) else 4
        s['nsingle'], s['nleads'] = n, rng.choice([4, 4, 2]) if n == 2 else 4
        mode = rng.choice(['ssq', 'sz', 'charge', 'ssq', 'szfree', 'Lin'])
        if mode == 'szfree':
            s['symmetry'], s['indexing'] = None, 'sz'
        elif mode == 'ssq':
            s['symmetry'], s['indexing'] = 'spin', rng.choice([None, 'ssq'])
        else:
            s['symmetry'], s['indexing'] = 'spin', mode
        s['spinstruct'] = True
    else:
        s['nsingle'] = rng.randint(1, nmax) if not many else 0
        s['nleads'] = rng.choice(list(leads))
        s['symmetry'] = None
        s['indexing'] = rng.choice([None, 'charge', 'charge', 'Lin']) if app != 'RTD' else rng.choice([None, 'charge'])
        s['spinstruct'] = False
    if s['symmetry'] == 'spin' and s['indexing'] in ('charge', 'Lin'):
        # degenerate multiplets are mixed freely by these indexings: avoid approaches without coherences
        if app == 'Pauli':
            app = rng.choice([a for a in apps if a != 'Pauli'] or ['1vN'])
    s['kerntype'] = ('py' if pyq else '') + app
    s['cls'] = rng.random() < 0.15
    s['itype'] = rng.choice(list(itypes))
    if app == 'RTD':
        s['itype'] = 1
    if s['itype'] == 0 and (s['nsingle'] > 3 or many):
        s['itype'] = rng.choice([1, 2])
    s['symq'] = rng.random() < 0.75
    s['norm_row'] = rng.choice([0, 0, 0, 1])
    s['solmethod'] = None
    s['mfreeq'] = app not in ('RTD', '2vN') and rng.random() < mfree
    s['kpnt'] = rng.choice([32, 48, 64])
    s['herm_hs'] = rng.random() < 0.85
    s['herm_c'] = rng.random() < 0.3
    s['m_less_n'] = True
    s['fmt'] = {k: rng.choice(['dict', 'list', 'array']) for k in ('hsingle', 'coulomb', 'tleads', 'velph') + LEADS + PH}
    s['dcap'] = num(rng, 15, 40)
    s['real'] = rng.random() < (0.7 if app == 'RTD' else 0.15)
    if many:
        gen_many(rng, s)
    else:
        gen_single(rng, s)
        if s['real'] and rng.random() < 0.4:
            s['mtype'] = rng.choice([['mtype_qd'], ['mtype_leads'], ['mtype_qd', 'mtype_leads']])
    nl = nlead_par(s)
    s['mulst'] = repeats(rng, [num(rng, -1.5, 1.5) for _ in range(nl)], 0.1)
    s['tlst'] = repeats(rng, [num(rng, 0.3, 1.5) for _ in range(nl)])
    if app == 'RTD' and not s['real'] and rng.random() < 0.4:
        s['tlst'] = s['tlst'][:1]*nl      # complex couplings alone need what unequal temperatures need
    if rng.random() < 0.6:
        s['dlst'] = [[-s['dcap'], s['dcap']] for _ in range(nl)]
    else:
        s['dlst'] = [[-num(rng, 15, 40), num(rng, 15, 40)] for _ in range(nl)]
    if kind in ('elph', 'mbelph'):
        s['nbaths'] = rng.choice([1, 1, 2])
        s['itype_ph'] = 0 if rng.random() < 0.12 and (many or s['nsingle'] <= 2) else 2
        s['tlst_ph'] = [num(rng, 0.3, 1.2) for _ in range(s['nbaths'])]
        s['dlst_ph'] = [[0.001, num(rng, 8, 20)] for _ in range(s['nbaths'])]
        s['bath'] = rng.choice([None, 'const', 'ohmic'])
        # the library takes any couplings, and its own tests use ones that are not hermitian
        herm = rng.random() >= nonherm
        if kind == 'elph':
            ns = s['nsingle'] // (2 if s['spinstruct'] else 1)
            v = []
            for b in range(s['nbaths']):
                for i in range(ns):
                    v.append([b, i, i, num(rng, 0.2, 0.8)])
                    for j in range(i):
                        z = phase(rng, rng.uniform(0.05, 0.4), s['real'])
                        v.append([b, j, i, z])
                        if not herm:
                            if rng.random() < 0.5:
                                continue
                            z = phase(rng, rng.uniform(0.05, 0.4), s['real'])
                        v.append([b, i, j, [z[0], -z[1]] if isinstance(z, list) else z])
            if s['indexing'] == 'sz' and s['symmetry'] is None:
                v = v + [[b, i+ns, j+ns, x] for b, i, j, x in v]
            s['velph'] = v
        else:
            n = len(s['Ea'])
            s['Vbbp'] = [gen_V(rng, s['Na'], s['real'], herm) for _ in range(s['nbaths'])]
    else:
        s['nbaths'] = 0
    return s


REGIMES = ('cold', 'hot', 'narrow', 'far', 'weak', 'strong', 'flat', 'resonant', 'large', 'near')


def extreme(rng, s, kinds=REGIMES):
    """Moves a system to the edge of the usual parameter range."""
    nl = len(s['mulst'])
    many = s['kind'] in ('mb', 'mbelph')
    names = rng.sample(list(kinds), rng.choice([1, 1, 2]))
    if 'hot' in names and 'narrow' in names:
        names.remove('narrow')      # no approach is made for bands narrower than the temperature
    for k in names:
        if k == 'cold':
            s['tlst'] = [round(10**rng.uniform(-2, -0.7), 5) for _ in range(nl)]
        elif k == 'hot':
            s['tlst'] = [num(rng, 3, 50) for _ in range(nl)]
        elif k == 'near':
            # temperatures that differ by less than a solver may tell apart
            s['tlst'] = [s['tlst'][0]+rng.choice([0, 1e-8, 4e-6, 3e-5, 1e-3]) for _ in range(nl)]
        elif k == 'narrow':
            s['dlst'] = [[-num(rng, 0.3, 3), num(rng, 0.3, 3)] for _ in range(nl)]
        elif k == 'far':
            s['mulst'] = [num(rng, -9, 9) for _ in range(nl)]
        elif k in ('weak', 'strong') and not many:
            f = 10**rng.uniform(-1.3, -0.5) if k == 'weak' else rng.uniform(2, 5)
            s['tleads'] = [list(x[:-1])+[[f*y for y in x[-1]] if isinstance(x[-1], list) else f*x[-1]]
                           for x in s['tleads']]
        elif k == 'flat' and not many:
            e = num(rng, -1, 1)
            s['hsingle'] = [[x[0], x[1], e] for x in s['hsingle'] if x[0] == x[1]]
        elif k == 'resonant' and not many:
            e = [x[-1] for x in s['hsingle'] if x[0] == x[1]]
            s['hsingle'] = [x for x in s['hsingle'] if x[0] == x[1]]
            s['mulst'] = [rng.choice(e) for _ in range(nl)]
        elif k == 'large' and not many:
            s['coulomb'] = [list(x[:-1])+[[20*y for y in x[-1]] if isinstance(x[-1], list) else 20*x[-1]]
                            for x in s['coulomb']]
    s['regime'] = '+'.join(sorted(names))
    return s


def nlead_par(s):
    return s['nleads']//2 if s['symmetry'] == 'spin' else s['nleads']


def nsingle_par(s):
    return s['nsingle']//2 if s['symmetry'] == 'spin' else s['nsingle']


def gen_real(rng, s):
    """(Hamiltonian is real, couplings of which leads are real): complex couplings of one lead alone are a case of their own."""
    n = nlead_par(s)
    if s['real']:
        return True, [True]*n
    if rng.random() < (0.4 if 'RTD' in s['kerntype'] else 0.8):
        return False, [False]*n
    k = rng.randrange(n)
    return True, [l != k for l in range(n)]


def gen_single(rng, s):
    REAL, lead_real = gen_real(rng, s)
    n = nsingle_par(s)
    szfree = s['indexing'] == 'sz' and s['symmetry'] is None
    h = []
    half = n//2 if szfree else n
    groups = [range(half), range(half, n)] if szfree else [range(n)]
    for g in groups:
        g = list(g)
        for a, i in enumerate(g):
            h.append([i, i, num(rng, -2.0, 2.0)])
            for j in g[a+1:]:
                if rng.random() < 0.8:
                    z = phase(rng, rng.uniform(0.05, 0.6), REAL)
                    h.append([i, j, z])
                    if not s['herm_hs']:
                        h.append([j, i, [z[0], -z[1]] if isinstance(z, list) else z])
    s['hsingle'] = h
    c = []
    if s['symmetry'] == 'spin':
        for i in range(n):
            c.append([i, i, i, i, num(rng, 0.5, 4)])
        for i in range(n):
            for j in range(i+1, n):
                c.append([i, j, j, i, num(rng, 0.3, 2)])
        if n == 2 and s['herm_c'] and rng.random() < 0.3:
            for k in rng.sample([[0, 1, 0, 1], [0, 0, 1, 1]], rng.randint(1, 2)):
                c.append(k + [num(rng, 0.1, 0.6)])
    else:
        for i in range(n):
            for j in range(i+1, n):
                if rng.random() < 0.85:
                    c.append([i, j, j, i, num(rng, 0.3, 4)])
        if n >= 3 and s['herm_c'] and not szfree and rng.random() < 0.7:
            c.append([0, 1, 2, 0, phase(rng, rng.uniform(0.1, 0.5), REAL)])
        if n >= 4 and s['herm_c'] and not szfree and rng.random() < 0.5:
            c.append([0, 1, 3, 2, phase(rng, rng.uniform(0.1, 0.5), REAL)])
    s['coulomb'] = c
    t = []
    nl = nlead_par(s)
    for l in range(nl):
        for i in range(n):
            if szfree and (l >= nl//2) != (i >= half):
                continue
            if rng.random() < 0.9 or (l % n) == i:
                t.append([l, i, phase(rng, rng.uniform(0.06, 0.3), lead_real[l])])
    s['tleads'] = t


def gen_many(rng, s):
    lead_real = gen_real(rng, s)[1]
    shape = rng.choice([[1, 2, 1], [1, 2], [1, 3, 2], [2, 3, 1], [1, 1, 1], [1, 3, 3, 1], [1, 2, 1, 1]])
    Na = [c for c, k in enumerate(shape) for _ in range(k)]
    s['Na'] = Na
    s['Ea'] = [round(rng.uniform(-1.0, 1.0) + 0.5*c*(c-1), 3) for c in Na]
    n = len(Na)
    s['Tba'] = []
    for l in range(s['nleads']):
        m = np.zeros((n, n), dtype=complex)
        for b in range(n):
            for a in range(n):
                if Na[b] == Na[a]+1:
                    z = cplx(phase(rng, rng.uniform(0.06, 0.3), lead_real[l]))
                    m[b, a], m[a, b] = z, z.conjugate()
        s['Tba'].append(mat_json(m))


def gen_V(rng, Na, REAL=False, herm=True):
    n = len(Na)
    m = np.zeros((n, n), dtype=complex)
    for b in range(n):
        for a in range(b+1):
            if Na[b] == Na[a]:
                z = cplx(phase(rng, rng.uniform(0.05, 0.5), REAL))
                if a == b:
                    z = z.real + 0.1
                m[b, a], m[a, b] = z, np.conj(z)
                if not herm and a != b:
                    m[a, b] = cplx(phase(rng, rng.uniform(0.05, 0.5), REAL))
    return mat_json(m)


def mat_json(m):
    return [[[float(z.real), float(z.imag)] for z in row] for row in m]


def mat(j):
    a = np.array(j, dtype=float)
    return a[..., 0] + 1j*a[..., 1]


# ---------------------------------------------------------------------------------------------------------------
# formats of the arguments

def as_fmt(name, fmt, items, model):
    """Encodes [[*index, value], ...] in one of the documented input formats."""
    ns, nl, nb = nsingle_par(model.s), nlead_par(model.s), model.s['nbaths']
    if fmt == 'dict':
        return {tuple(x[:-1]): cplx(x[-1]) for x in items}
    if fmt == 'list':
        return [list(x[:-1]) + [cplx(x[-1])] for x in items]
    if name == 'coulomb':
        return np.array([list(x[:-1]) + [cplx(x[-1])] for x in items], dtype=object) if items else []
    shape = {'hsingle': (ns, ns), 'tleads': (nl, ns), 'velph': (nb, ns, ns)}[name]
    a = np.zeros(shape, dtype=complex)
    for x in items:
        a[tuple(x[:-1])] = cplx(x[-1])
        if name == 'hsingle' and model.s['herm_hs'] and x[0] != x[1]:
            a[x[1], x[0]] = np.conj(cplx(x[-1]))
    return a


def lst_fmt(fmt, vals):
    if fmt == 'dict':
        return {i: (tuple(v) if isinstance(v, (list, tuple)) else v) for i, v in enumerate(vals)}
    if fmt == 'array':
        return np.array(vals, dtype=float)
    return copy.deepcopy(list(vals))


# ---------------------------------------------------------------------------------------------------------------
# the reference model

APPROACHES = {}


class Model(object):

    def __init__(self, spec):
        s = self.s = spec
        self.many = s['kind'] in ('mb', 'mbelph')
        self.ph = s['kind'] in ('elph', 'mbelph')
        self.par = {}
        if self.many:
            self.par['Ea'] = np.array(s['Ea'], dtype=float)
            self.par['Tba'] = np.array([mat(m) for m in s['Tba']])
            if self.ph:
                self.par['Vbbp'] = np.array([mat(m) for m in s['Vbbp']])
        else:
            for k in ('hsingle', 'coulomb', 'tleads'):
                self.par[k] = {tuple(x[:-1]): cplx(x[-1]) for x in s[k]}
            if self.ph:
                self.par['velph'] = {tuple(x[:-1]): cplx(x[-1]) for x in s['velph']}
        self.par['mulst'] = np.array(s['mulst'], dtype=float)
        self.par['tlst'] = np.array(s['tlst'], dtype=float)
        self.par['dlst'] = np.array(s['dlst'], dtype=float)
        if self.ph:
            self.par['tlst_ph'] = np.array(s['tlst_ph'], dtype=float)
            self.par['dlst_ph'] = np.array(s['dlst_ph'], dtype=float)
        self.set = {k: s[k] for k in ('kerntype', 'symq', 'norm_row', 'solmethod', 'itype', 'mfreeq', 'kpnt')}
        self.set['offdiag'] = True
        self.set['kcopy'] = False
        self.set['itype_ph'] = s.get('itype_ph')
        self.set['phi0_init'] = None
        self.fock = set()
        self.kept = None            # labels of the states kept, None: all
        self.coh = []               # [(energies, dE), ...] coherence removals in force, in order
        self.order = None           # sorting in force: None or (srt, energies)
        self.hid = {}               # matrix elements that were added without being recorded
        self.diagH = None           # Hamiltonian (hsingle, coulomb, fock) of the last diagonalisation
        self.rot = None             # (H, tleads, velph) of the last rotation
        self.nsolve = 0
        self._Ecache = {}

    def copy(self):
        return copy.deepcopy(self)

    # -- what a diagonalisation or rotation depends on
    def Hkey(self):
        if self.many:
            return 'many'
        return repr((sorted(self.par['hsingle'].items()), sorted(self.par['coulomb'].items()), sorted(self.fock)))

    def Tkey(self):
        if self.many:
            return 'many'
        return repr((sorted(self.par['tleads'].items()), sorted(self.par.get('velph', {}).items())))

    def did_solve(self, qdq, rotateq):
        if self.many:
            self.diagH, self.rot = self.Hkey(), (self.Hkey(), self.Tkey())
            self.Esnap = None
        elif qdq:
            self.diagH = self.Hkey()
            self.snapH = (dict(self.par['hsingle']), dict(self.par['coulomb']), set(self.fock))
            if rotateq:
                self.rot = (self.diagH, self.Tkey())

    def clean(self):
        """True if the last diagonalisation and rotation belong to the present parameters."""
        return self.diagH == self.Hkey() and self.rot == (self.Hkey(), self.Tkey())

    def energies(self):
        """Many-body energies of the last diagonalisation (from a system of its own)."""
        if self.many:
            return np.array(self.par['Ea'])
        if self.diagH is None:
            return None
        if self.diagH not in self._Ecache:
            m = self.copy()
            m.par['hsingle'], m.par['coulomb'], m.fock = copy.deepcopy(self.snapH)
            m.kept, m.coh = None, []
            m.set['kerntype'] = 'pyPauli'
            m.set['mfreeq'] = False
            f = m.fresh(restrict=False)
            if m.fock:
                f.remove_fock_states(sorted(m.fock))
            f.solve(masterq=False)
            self._Ecache = {self.diagH: np.array(f.Ea)}
        return np.array(self._Ecache[self.diagH])

    # -- parameters
    def ctor_args(self, fmt=None):
        """Constructor arguments; fmt None: plain dictionaries and lists."""
        s, p = self.s, self.par
        a = {}
        if self.many:
            a.update(Ea=np.array(p['Ea']), Na=list(s['Na']), Tba=np.array(p['Tba']))
            if self.ph:
                a['Vbbp'] = np.array(p['Vbbp'])
        else:
            a.update(nsingle=s['nsingle'], nleads=s['nleads'], indexing=s['indexing'])
            for k in ('hsingle', 'coulomb', 'tleads') + (('velph',) if self.ph else ()):
                items = [list(i)+[v] for i, v in p[k].items()]
                a[k] = as_fmt(k, (fmt or {}).get(k, 'dict'), items, self)
            if self.ph:
                a['nbaths'] = s['nbaths']
        a['mulst'] = lst_fmt((fmt or {}).get('mulst', 'list'), p['mulst'].tolist())
        a['tlst'] = lst_fmt((fmt or {}).get('tlst', 'list'), p['tlst'].tolist())
        a['dband'] = lst_fmt((fmt or {}).get('dlst', 'list'), p['dlst'].tolist())
        if self.ph:
            a['tlst_ph'] = lst_fmt((fmt or {}).get('tlst_ph', 'list'), p['tlst_ph'].tolist())
            a['dband_ph'] = lst_fmt((fmt or {}).get('dlst_ph', 'list'), p['dlst_ph'].tolist())
            b = s.get('bath')
            if b is not None:
                a['bath_func'] = [BATHS[b]() for _ in range(s['nbaths'])]
            if not self.many:
                a['itype_ph'] = self.set['itype_ph']
        if s.get('mtype'):
            a.update({k: float for k in s['mtype']})
        a.update(symmetry=s['symmetry'], herm_hs=s['herm_hs'], herm_c=s['herm_c'], m_less_n=s['m_less_n'])
        t = self.set
        a.update(kerntype=t['kerntype'], symq=t['symq'], norm_row=t['norm_row'], solmethod=t['solmethod'],
                 itype=t['itype'], mfreeq=t['mfreeq'], kpnt=t['kpnt'])
        if t['phi0_init'] is not None:
            a['phi0_init'] = np.array(t['phi0_init'])
        if engines(t['kerntype']) == 'RTD':
            a['itype'] = 1
        return a

    def cls(self):
        return {'base': BuilderBase, 'mb': BuilderManyBody, 'elph': BuilderElPh,
                'mbelph': BuilderManyBodyElPh}[self.s['kind']]

    def approach(self, kerntype):
        """The class of this approach: approaches may be named or given as classes."""
        key = self.s['kind'], kerntype
        if key not in APPROACHES:
            m = self.copy()
            m.set.update(kerntype=kerntype, mfreeq=False, solmethod=None, phi0_init=None)
            APPROACHES[key] = type(m.build().appr)
        return APPROACHES[key]

    def build(self, fmt=None, **over):
        a = self.ctor_args(fmt)
        a.update(over)
        with quiet():
            b = self.cls()(**a)
            if self.many and self.ph:
                b.funcp.itype_ph = self.set['itype_ph']
        return b

    def fresh(self, restrict=True, **over):
        """A new system with the present parameters, settings and restrictions."""
        b = self.build(**over)
        with quiet():
            if not self.set['offdiag']:
                b.off_diag_corrections = False
            if self.set['kcopy']:
                b.make_kern_copy = True
            if restrict:
                self.restrict(b)
        return b

    def restrict(self, b):
        if self.fock:
            b.remove_fock_states(sorted(self.fock))
        if self.kept is not None:
            b.si.set_statesdm(self.statesdm(b))
            if hasattr(b, 'si_elph'):
                b.si_elph.set_statesdm(self.statesdm(b))
        for E, dE in self.coh:
            keep = np.array(b.qd.Ea)
            b.qd.Ea[:] = E
            b.remove_coherences(dE)
            b.qd.Ea[:] = keep

    def statesdm(self, b):
        lst = self.chargelst(b)
        return [[x for x in c if x in self.kept] for c in lst]

    def chargelst(self, b):
        if self.many:
            n = max(self.s['Na'])+1
            return [[i for i, q in enumerate(self.s['Na']) if q == c] for c in range(n)]
        return [list(c) for c in b.si.chargelst]

    def solve_args(self, niter=None):
        a = {}
        if self.many:
            a['qdq'] = False
        if engines(self.set['kerntype']) == '2vN':
            a['niter'] = niter or 2
        return a

    def fresh_solved(self, niter=None, **over):
        b = self.fresh(**over)
        with quiet():
            b.solve(**self.solve_args(niter))
        return b

    # -- parameter edits
    def edit(self, how, p, hide=False):
        """Semantics of Builder.add/change on the reference parameters.

        With hide (updateq=False, lstq=False) the values of the matrix elements take effect without being recorded;
        a later change replaces what is recorded. Lists are left alone.
        """
        for k, e in p.items():
            if k in ELEMS:
                d = self.par[k]
                items = self.elem_items(how, k, e)
                for idx, v in items.items():
                    if v == 0 and idx not in d:
                        continue
                    d[idx] = (d.get(idx, 0.0) + v) if how == 'add' else v + self.hid.get((k, idx), 0.0)
                    if hide:
                        self.hid[k, idx] = self.hid.get((k, idx), 0.0) + v
            elif not hide:
                self.par[k] = self.lst_edit(how, k, e)

    def elem_items(self, how, k, e):
        items = {tuple(x[:-1]): cplx(x[-1]) for x in e['v']}
        if e['f'] == 'array' and k != 'coulomb' and how == 'change':
            # an array defines every element
            ns, nl, nb = nsingle_par(self.s), nlead_par(self.s), self.s['nbaths']
            if k == 'hsingle':
                idx = [(i, j) for i in range(ns) for j in range(i if self.s['herm_hs'] else 0, ns)]
            elif k == 'tleads':
                idx = [(l, i) for l in range(nl) for i in range(ns)]
            else:
                idx = [(b, i, j) for b in range(nb) for i in range(ns) for j in range(ns)]
            items = {i: items.get(i, 0.0) for i in idx}
        return items

    def lst_edit(self, how, k, e):
        old = self.par[k]
        pairs = k in ('dlst', 'dlst_ph')
        new = np.array(old) if how == 'change' else np.zeros_like(old)
        v = e['v']

        def one(x):
            if not pairs:
                return x
            return x if isinstance(x, (list, tuple)) else [-x, x]
        if e['f'] == 'scalar':
            for i in range(len(new)):
                new[i] = one(v)
        elif e['f'] == 'dict':
            for i, x in v:
                new[i] = one(x)
        else:
            for i, x in enumerate(v):
                new[i] = one(x)
        return new if how == 'change' else old + new

    # -- restrictions
    def levels(self):
        E = self.energies()
        if E is None:
            raise Skip
        labels = set(range(len(E)))
        vals = sorted(E[i] for i in labels)
        lev = [vals[0]]
        for x in vals[1:]:
            if x - lev[-1] > 1e-6:
                lev.append(x)
        return E, lev

    def threshold(self, frac):
        """A cut-off that lies in the middle between two energies."""
        E, lev = self.levels()
        if len(lev) < 2:
            raise Skip
        k = 1 + int(frac*(len(lev)-1))
        k = min(k, len(lev)-1)
        dE = 0.5*(lev[k-1]+lev[k]) - lev[0]
        if lev[k] - lev[k-1] < 1e-4:
            raise Skip
        return E, dE

    def coh_threshold(self, frac):
        E, lev = self.levels()
        d = sorted(abs(a-b) for i, a in enumerate(lev) for b in lev[:i])
        if not d:
            raise Skip
        d = [0.0] + d
        k = 1 + min(int(frac*len(d)), len(d)-2)
        if d[k] - d[k-1] < 1e-4:
            raise Skip
        return E, 0.5*(d[k-1]+d[k])

    def keep_below(self, E, dE):
        emin = min(E)
        return frozenset(i for i in range(len(E)) if E[i] < emin + dE)


# ---------------------------------------------------------------------------------------------------------------
# output capture

class Capture(io.StringIO):
    pass


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = cap = Capture()
    try:
        with np.errstate(all='ignore'):
            yield cap
    finally:
        sys.stdout = old


# ---------------------------------------------------------------------------------------------------------------
# observations

SEEN = None         # hash of everything observed in this run; two executions of one run have to agree on it


def observe(b):
    """What a user sees of a solved system."""
    o = {'success': bool(b.success)}
    for k in ('current', 'energy_current', 'heat_current'):
        v = getattr(b, k)
        o[k] = None if v is None else np.array(v, dtype=float)
    phi0 = b.phi0
    o['phi0'] = None if phi0 is None else np.array(phi0)
    if phi0 is not None:
        n = b.si.npauli
        o['pop'] = np.array(np.real(phi0[:n]))
        if len(phi0) > n and engines(b.appr.kerntype) != 'Pauli':
            if np.iscomplexobj(phi0):
                o['coh'] = np.abs(phi0[n:])
            else:
                m = (len(phi0)-n)//2
                o['coh'] = np.hypot(phi0[n:n+m], phi0[n+m:])
    # current amplitudes, for the approaches that have them
    phi1 = b.appr.phi1
    o['amp'] = None if phi1 is None else np.abs(np.array(phi1))
    # what the system says about its settings
    o['settings'] = {k: getattr(b.appr, k) for k in ('kerntype', 'symq', 'norm_row', 'mfreeq', 'itype')
                     if not (k == 'itype' and engines(b.appr.kerntype) == 'RTD')}
    if SEEN is not None:
        for k in ('current', 'energy_current', 'heat_current', 'phi0', 'amp'):
            SEEN.update(k.encode() if o[k] is None else np.ascontiguousarray(o[k]).tobytes())
    return o


def scales(model):
    """Rough scales of particle and energy currents."""
    if model.many:
        t2 = float(np.max(np.abs(model.par['Tba']))**2)
        e = float(np.max(np.abs(model.par['Ea'])))
    else:
        t2 = max([abs(v)**2 for v in model.par['tleads'].values()] + [1e-4])
        e = sum(abs(v) for v in model.par['hsingle'].values()) + sum(abs(v) for v in model.par['coulomb'].values())
    mu = float(np.max(np.abs(model.par['mulst'])))
    T = float(np.max(model.par['tlst']))
    g = 2*np.pi*t2
    return g, g*(1.0 + e + mu + T)


def compare(a, b, model, rtol=None, atol=1e-8, coh=True, what=('current', 'energy_current', 'heat_current', 'pop')):
    """Differences between two observations; None if they agree."""
    if rtol is None:
        rtol = tolerance(model)
    g, eg = scales(model)
    if mixed(model):
        # members of degenerate multiplets are mixed freely: only sums over them are determined
        coh = False
        what = tuple(k for k in what if k != 'pop')
    for k in what + (('coh',) if coh else ()) + (('amp',) if coh and 'current' in what and model.s['symmetry'] != 'spin' else ()):
        x, y = a.get(k), b.get(k)
        if x is None and y is None:
            continue
        if (x is None) != (y is None):
            return '%s: %s instead of %s' % (k, fmtv(x), fmtv(y))
        if x.shape != y.shape:
            return '%s has %s entries instead of %s' % (k, x.shape, y.shape)
        if engines(model.set['kerntype']) == 'RTD' and k in ('energy_current', 'heat_current') and \
                np.all(np.isnan(x)) and np.all(np.isnan(y)):
            continue        # documented: no energy currents for complex tunnelling
        if not np.all(np.isfinite(x)):
            return '%s is not finite: %s instead of %s' % (k, fmtv(x), fmtv(y))
        s = {'current': g, 'energy_current': eg, 'heat_current': eg, 'pop': 1.0, 'coh': 1.0, 'amp': 1.0}[k]
        ref = max(float(np.max(np.abs(y))) if y.size else 0.0, 0.0)
        if k in ('pop', 'coh'):
            ref = 1.0
        if y.size and np.max(np.abs(x-y)) > rtol*ref + atol*s:
            return '%s is %s instead of %s' % (k, fmtv(x), fmtv(y))
    return None


def mixed(model):
    return model.s['symmetry'] == 'spin' and model.s['indexing'] in ('charge', 'Lin')


def fmtv(v):
    if v is None:
        return 'None'
    return '[' + ', '.join('%.8g' % x for x in np.ravel(v)[:8]) + ']'


def tolerance(model):
    if model.set['mfreeq']:
        return 1e-3
    if model.ph and model.set.get('itype_ph') == 0:
        return 1e-4
    if engines(model.set['kerntype']) == 'RTD' and not model.s.get('real', True):
        # rounding in the products of complex amplitudes selects one of two integrals, which agree to 1e-4 for equal
        # temperatures and to about 1e-2 for different ones
        T = model.par['tlst']
        T = [float(t) for t in (T.values() if isinstance(T, dict) else T)]
        return 5e-2 if max(T)-min(T) > 1e-9*max(T) else 1e-2
    if model.set['itype'] == 0:
        return 1e-5
    return 1e-6


def jittered(model, k, eps=1e-11):
    """The model with couplings and energies moved by a relative eps."""
    r = np.random.RandomState(1000+k)
    m = model.copy()

    def f():
        return 1.0 + eps*(2*r.rand()-1)
    if m.many:
        m.par['Ea'] = np.array([e*f() for e in m.par['Ea']])
        T = m.par['Tba']
        for a in range(T.shape[1]):
            for b in range(a):
                T[:, a, b] *= f()
                T[:, b, a] = np.conj(T[:, a, b])
    else:
        for k2 in ('tleads', 'hsingle', 'coulomb'):
            m.par[k2] = {i: v*f() if k2 == 'tleads' or i[0] == i[-1] else v for i, v in sorted(m.par[k2].items())}
    return m


def fragile(model, niter=None, rtol=None, coh=True, what=('current', 'energy_current', 'heat_current', 'pop')):
    """True if the result is not determined by the parameters to the accuracy of the comparison: relative changes of
    1e-11 move it, or the kernel is nearly singular in more than the direction of the normalisation."""
    if conditioning(model, niter) > 1e9:
        return True
    try:
        ref = observe(model.fresh_solved(niter=niter))
        for k in range(4):
            for eps in (1e-15, 1e-11):
                if compare(observe(jittered(model, k, eps).fresh_solved(niter=niter)), ref, model, rtol=rtol, coh=coh,
                           what=what) is not None:
                    return True
    except Exception:
        return True
    return False


def conditioning(model, niter=None):
    """Condition number of the kernel of the present system (pure Python kernel)."""
    try:
        m = model.copy()
        m.set.update(symq=True, solmethod='solve', mfreeq=False, kcopy=False)
        k = m.set['kerntype']
        m.set['kerntype'] = 'py'+engines(k)
        with quiet():
            b = m.fresh()
            b.solve(**m.solve_args(niter))
        kern = np.array(b.kern)
        kern[m.set['norm_row']] = b.appr.norm_vec
        if not np.all(np.isfinite(kern)):
            return np.inf
        # scale rows: what matters is how far the solution moves for relative changes of the rates
        r = np.max(np.abs(kern), axis=1)
        r[r == 0] = 1.0
        return float(np.linalg.cond(kern/r[:, None]))
    except Exception:
        return np.inf
