"""C08: iterative second-order solves can be split, observed, aborted and resumed."""

import json

import numpy as np

from sim import faults, ops
from sim.history import config
from sim.ops import Live, apply
from sim.runner import bump, forked, mark
from sim.world import Skip, compare, fragile, gen_spec, observe, quiet

RUNS = 1600
RULE = ('a seed draws a system, a sequence of iterations split into arbitrary pieces (continued or restarted, with or '
        'without diagonalising again), user functions that read results, or abort at a chosen iteration, exceptions at a '
        'chosen point inside an iteration, solves that do nothing, switches of solver settings and of the approach, and '
        'edits followed by a restart; non-trivial if iterations were continued at least once; distinct by configuration '
        'and sequence')
SHRINK = ('ops',)
STUBS = 'numpy and scipy functions called by qmeq are wrapped by pass-through seams while a fault is armed'
ASSUMPTIONS = ['after an exception during the diagonalisation the next solve diagonalises again']


class Abort(Exception):
    pass


def gen(rng, tier, i):
    spec = gen_spec(rng, kinds=('base', 'base', 'base', 'mb'), approaches=('2vN',), py=0.3,
                    nmax=rng.choice([1, 2, 2]), leads=(1, 2, 2, 2, 3))
    if spec['kind'] == 'mb':        # gen_spec chooses first-order approaches here
        spec['kerntype'] = rng.choice(['2vN', '2vN', 'py2vN'] if len(spec['Ea']) < 5 else ['2vN'])
    small = spec['kerntype'] == 'py2vN'
    spec['kpnt'] = rng.choice([9, 12, 16] if small else [9, 16, 24, 32])
    spec['mfreeq'] = False
    lst = []
    n = rng.randint(2, 5) if tier == 'quick' else rng.randint(4, 10)
    total = 4 if small else 7
    for k in range(n):
        r = rng.random()
        if k and r < 0.12:
            lst.append({'o': 'idle', 'how': rng.choice(['niter0', 'nomaster', 'noniter'])})
        elif k and r < 0.22:
            lst.append({'o': 'setting', 'k': rng.choice(['symq', 'norm_row', 'norm_row', 'solmethod', 'copy'])})
        elif k and r < 0.28:
            lst.append({'o': 'away', 'to': rng.choice(['Redfield', 'py1vN', 'Pauli', 'pyLindblad', 'py2vN', '2vN']),
                        'solve': rng.random() < 0.5})
        elif k and r < 0.40:
            what = rng.choice(['mulst', 'tlst', 'kpnt', 'dlst'])
            lst.append({'o': 'change', 'p': what, 'v': [round(rng.uniform(0.3, 1.4), 3) for _ in range(spec['nleads'])],
                        'kpnt': rng.choice([9, 12, 14])})
        go = {'o': 'go', 'n': rng.choice([1, 1, 1, 2, 2, 3]), 'restart': rng.random() < (0.15 if k else 0.7),
              'qdq': rng.random() < 0.5, 'cb': rng.random() < 0.65}
        if go['cb'] and rng.random() < 0.35:
            go['abort'] = rng.randint(0, go['n']-1)
            go['exc'] = rng.choice(['Abort', 'KeyboardInterrupt', 'StopIteration', 'MemoryError', 'SystemExit',
                                    'GeneratorExit'])
        elif rng.random() < 0.4:
            seam = rng.choice(['line', 'line', 'call', 'call', 'linalg', 'alloc'])
            go['fault'] = {'seam': seam, 'frac': round(rng.random(), 5),
                           'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'LinAlgError'])}
            if seam == 'alloc':
                go['fault'].update(exc='MemoryError', frac=int(10**rng.uniform(0, 3.2)))
        if go['cb']:
            go['read'] = rng.choice([[], ['current'], ['phi0', 'phi1'], ['iters'], ['get'], ['poke']])
        lst.append(go)
    out, tot = [], 0
    for op in lst:
        if op['o'] == 'go':
            if op['restart']:
                tot = 0
            if tot+op['n'] > total:
                op = dict(op, restart=True)
                tot = 0
            tot += op['n']
        out.append(op)
    return {'specs': [spec], 'ops': out}


class W(object):
    """The reference: what a user knows of the iterations done so far."""

    def __init__(self, live, stats):
        self.live, self.stats = live, stats
        self.k = 0                  # completed iterations
        self.snaps = []             # copies of the records, taken when they appeared
        self.memo = {}
        self.needq = True           # the next solve has to diagonalise
        self.must = True            # the next solve has to restart
        self.done = []
        self.cont = False

    def fresh(self, n):
        m = self.live.model
        key = json.dumps([n, str(m.par), str(sorted(m.set.items(), key=str))])
        if key not in self.memo:
            with quiet():
                f = m.fresh()
                f.solve(qdq=not m.many, niter=n)
            self.memo[key] = look(f)
        return self.memo[key]

    def check_now(self, seen, what):
        """Compares results shown after self.k iterations with a new system's."""
        m = self.live.model
        ref = self.fresh(self.k)
        msg = differ(seen, ref, m)
        bump(self.stats, 'states_compared')
        if msg is not None and not fragile(m, self.k):
            return '%s after %d iterations: %s' % (what, self.k, msg)
        return None


def look(b):
    o = observe(b)
    o['phi1'] = np.array(b.appr.phi1)
    return o


def differ(a, b, model):
    if a['success'] != b['success']:
        return 'success is %s instead of %s' % (a['success'], b['success'])
    msg = compare(a, b, model, rtol=1e-7)
    if msg is None:
        s = max(float(np.max(np.abs(b['phi1']))) if b['phi1'].size else 0.0, 1e-3)
        if a['phi1'].shape != b['phi1'].shape or (b['phi1'].size and np.max(np.abs(np.abs(a['phi1'])-np.abs(b['phi1']))) > 1e-6*s):
            msg = 'phi1 differs'
    return msg


REC = ('niter', 'phi0', 'phi1', 'current', 'energy_current', 'heat_current')


def record(it):
    return {k: np.array(getattr(it, k)) for k in REC}


def check_records(w):
    """One record per completed iteration, each as it was when it was made."""
    iters = w.live.b.appr.iters
    if len(iters) != w.k:
        return 'records: %d records after %d iterations' % (len(iters), w.k)
    if w.k and w.live.b.appr.niter != w.k-1:
        return 'records: niter is %d after %d iterations' % (w.live.b.appr.niter, w.k)
    for j, it in enumerate(iters):
        r = record(it)
        if int(r['niter']) != j:
            return 'records: record %d has niter %d' % (j, int(r['niter']))
        if j < len(w.snaps):
            for k in REC:
                if not np.array_equal(r[k], w.snaps[j][k], equal_nan=True):
                    return 'records: %s of iteration %d changed later' % (k, j)
        else:
            w.snaps.append(r)
        bump(w.stats, 'records_checked')
    del w.snaps[len(iters):]
    return None


def go(w, op):
    live = w.live
    b, m = live.b, live.model
    restart = op['restart'] or w.must
    qdq = (op['qdq'] or w.needq) and not m.many
    start = 0 if restart else w.k
    if restart:
        w.snaps = []
    elif w.k:
        w.cont = True
    w.k = start
    calls, bad = [], []
    exc = {'Abort': Abort, 'StopIteration': StopIteration, 'GeneratorExit': GeneratorExit}.get(
        op.get('exc')) or faults.EXC.get(op.get('exc'))

    def func(appr):
        calls.append(appr.niter)
        w.k += 1
        if appr is not b.appr and appr is not getattr(b.appr, 'appr', None):
            bad.append('callback: called with %s instead of the approach' % type(appr).__name__)
        if appr.niter != w.k-1:
            bad.append('callback: niter is %d in call %d' % (appr.niter, w.k-1))
        if len(appr.iters) != w.k:
            bad.append('callback: %d records in call %d' % (len(appr.iters), w.k-1))
        elif not bad:
            r, now = record(appr.iters[-1]), {k: np.array(getattr(appr, k)) for k in REC}
            for k in REC:
                if not np.array_equal(r[k], now[k], equal_nan=True):
                    bad.append('callback: %s is not that of the record of iteration %d' % (k, w.k-1))
            msg = None if op.get('fault') else w.check_now(look(b), 'callback: state seen')
            if msg is not None:
                bad.append(msg)
        for x in op.get('read', ()):
            if x == 'get':
                for c in range(b.si.nmany):
                    b.get_phi0(c, c)
            elif x == 'poke':
                np.array(appr.phi1k).sum()
                appr.iters[-1].current.copy()
            elif x == 'iters':
                list(appr.iters)
            else:
                np.copy(getattr(appr, x if x != 'phi0' else 'phi0'))
        if op.get('abort') == len(calls)-1:
            raise exc('abort')

    args = {'qdq': qdq, 'restartq': restart, 'niter': op['n']}
    if op['cb']:
        args['func_iter'] = func
    fault = None
    with quiet():
        try:
            if op.get('fault'):
                fl = op['fault']
                n = None
                if fl['seam'] != 'alloc':
                    k0, n0 = w.k, list(w.snaps)
                    n = faults.count(fl['seam'], lambda: b.solve(**args))
                    w.k, w.snaps = k0, n0
                    calls[:], bad[:] = [], []
                k = int(fl['frac']) if n is None else min(int(fl['frac']*n), max(n-1, 0))
                fault = faults.Fault(fl['seam'], fl['exc'], k)
                with faults.SEAMS[fl['seam']](fault):
                    b.solve(**args)
            else:
                b.solve(**args)
            err = None
        except BaseException as e:
            err = e
    if err is not None and not (op.get('fault') or 'abort' in op):
        raise err
    if 'abort' in op:
        if type(err) is not exc:
            return 'abort: %s raised by the user function arrives as %r' % (exc.__name__, err)
        bump(w.stats, 'faults_injected', 'abort %s' % exc.__name__)
        if len(calls) != op['abort']+1:
            return 'abort: the user function is called again after it raised'
        w.needq = w.must = False
    elif err is None:
        if op['cb'] and len(calls) != op['n']:
            return 'callback: called %d times for %d iterations' % (len(calls), op['n'])
        w.k = start+op['n']
        w.needq = w.must = False
        if fault is not None and (fault.fired or op['fault']['seam'] == 'alloc' and not
                                  all(np.any(it.phi0) for it in b.appr.iters[start:])):
            # a linear solve that fails is reported by success, the iteration itself is complete
            bump(w.stats, 'faults_absorbed')
            lost = [j for j in range(start, len(b.appr.iters)) if not np.any(b.appr.iters[j].phi0)]
            if len(lost) != 1:
                return 'absorbed: %d records show the failed linear solve' % len(lost)
            if lost[0] == w.k-1:
                if b.success or np.any(b.phi0):
                    return 'absorbed: a failed linear solve is not visible'
                return bad[0] if bad else check_records(w)
    else:
        fl = op['fault']
        bump(w.stats, 'faults_injected', '%s %s' % (fl['seam'], fl['exc']))
        if bad:
            return bad[0]
        names = fault.stack
        w.needq = True
        if restart and ('iteration' not in names and fl['seam'] != 'alloc'):
            # interrupted before the first iteration or outside of one: what a restart leaves is not specified
            w.must = True
            return None
        n = len(b.appr.iters)
        if fl['seam'] == 'alloc' and n < w.k or 'restart' in names:
            w.must = True
            return None
        if restart and fl['seam'] == 'alloc':
            w.must = True       # where it happened is not known
            return None
        if n < w.k or n > start+op['n'] or (op['cb'] and n > w.k+1):
            return 'interrupted: %d records where %d iterations were completed' % (n, w.k)
        w.k = n
        if not w.must:
            w.must = n == 0
        bump(w.stats, 'interrupted_iterations')
        return check_records(w) if not w.must else None
    if bad:
        return bad[0]
    msg = check_records(w)
    if msg is None and w.k:
        msg = w.check_now(look(b), 'result: state')
    return msg


def idle(w, op):
    b = w.live.b
    if w.must or w.needq:
        raise Skip
    before = look(b)
    args = {'niter0': dict(niter=0), 'nomaster': dict(masterq=False), 'noniter': dict(masterq=False, niter=3)}[op['how']]
    calls = []
    with quiet():
        b.solve(restartq=False, qdq=False if w.live.model.many else True, func_iter=lambda a: calls.append(1), **args)
    if calls:
        return 'idle: the user function is called without an iteration'
    now = look(b)
    for k, v in before.items():
        if k not in ('success', 'settings') and not np.array_equal(v, now[k], equal_nan=True):
            return 'idle: a solve without iterations changed %s' % k
    if now['success'] != before['success']:
        return 'idle: a solve without iterations changed success'
    return check_records(w)


def setting(w, op):
    b, m = w.live.b, w.live.model
    k = op['k']
    if k == 'symq':
        v = not m.set['symq']
        if not v and m.set['solmethod'] == 'solve':
            raise Skip
        if b.funcp.solmethod is not None and m.set['solmethod'] is None:
            # the method chosen by the library at construction or the first solve stays
            b.solmethod = m.set['solmethod'] = 'solve' if v else 'lsqr'
        b.symq = v
        m.set['symq'] = v
    elif k == 'norm_row':
        v = (m.set['norm_row']+1) % max(b.si.npauli, 1)
        b.norm_row = v
        m.set['norm_row'] = v
    elif k == 'solmethod':
        v = 'lsqr' if m.set['solmethod'] != 'lsqr' or not m.set['symq'] else 'solve'
        b.solmethod = v
        m.set['solmethod'] = v
    else:
        b.make_kern_copy = m.set['kcopy'] = not m.set['kcopy']
    return None


def away(w, op):
    b, m = w.live.b, w.live.model
    old = m.set['kerntype']
    if op['to'] == old:
        raise Skip
    with quiet():
        b.kerntype = op['to']
        if op['solve']:
            b.solve(qdq=not m.many, niter=1)
        b.kerntype = old
    # nothing is left to continue from
    w.k, w.snaps = 0, []
    w.must, w.needq = False, not m.many
    if b.appr.niter != -1 or len(b.appr.iters):
        return 'switch: an approach switched to starts with %d records' % len(b.appr.iters)
    return None


def change(w, op):
    live = w.live
    if op['p'] == 'kpnt':
        live.b.kpnt = live.model.set['kpnt'] = op['kpnt']
    elif op['p'] == 'dlst':
        d = 15+10*op['v'][0]
        apply(live, {'o': 'edit', 'm': 'change', 'p': {'dlst': {'f': 'list', 'v': [[-d, d+1] for _ in
                                                                                   live.model.par['mulst']]}}, 'via': 'builder'})
    else:
        v = op['v'][:len(live.model.par[op['p']])]
        apply(live, {'o': 'edit', 'm': 'change', 'p': {op['p']: {'f': 'list', 'v': v}}, 'via': 'builder'})
    w.must = True
    return None


DO = {'go': go, 'idle': idle, 'setting': setting, 'away': away, 'change': change}


def label(op):
    if op['o'] == 'go':
        return 'go%d%s%s%s%s%s' % (op['n'], 'R' if op['restart'] else '', 'q' if op['qdq'] else '', 'c' if op['cb'] else '',
                                   '!%d' % op['abort'] if 'abort' in op else '',
                                   '/'+op['fault']['seam'] if 'fault' in op else '')
    return op['o']+':'+str(op.get('how') or op.get('k') or op.get('to') or op.get('p'))


def run(trace, stats):
    if any(op.get('fault', {}).get('seam') == 'alloc' for op in trace['ops']):
        # numpy itself does not survive every failing allocation: such runs are left out
        st = {}
        how, res = forked(lambda: {'v': history(trace, st), 'stats': st}, 100.0)
        if how != 'ok':
            bump(stats, 'runs_left_out_numpy_died')
            return None
        stats.update(res['stats'])
        return res['v']
    return history(trace, stats)


def history(trace, stats):
    spec = trace['specs'][0]
    w = W(Live(spec), stats)
    m = w.live.model
    # the row replaced by the normalisation has to exist
    if m.set['norm_row'] >= w.live.b.si.npauli:
        w.live.b.norm_row = m.set['norm_row'] = 0
    v = None
    mark(stats, 'configs', config(spec))
    for op in trace['ops']:
        try:
            msg = DO[op['o']](w, op)
        except Skip:
            bump(stats, 'skipped')
            continue
        w.done.append(label(op))
        bump(stats, 'operations', op['o'])
        if msg is not None:
            v = {'kind': msg.split(':')[0], 'msg': 'after %s: %s' % (' '.join(w.done[-6:]), msg)}
            break
    stats['case'] = [config(spec)+'|'+','.join(w.done)] if w.cont else []
    if w.cont:
        stats['sample'] = json.dumps({'system': config(spec), 'operations': w.done})
    return v
