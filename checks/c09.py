"""C09: systems are isolated from each other and from the caller's data."""

import copy
import json

import numpy as np

from sim import ops, sched
from sim.history import config, equal, gen_history, opname, snapshot
from sim.ops import Live, apply
from sim.runner import bump, forked, mark
from sim.world import BATHS, ELEMS, FIRST, Model, Skip, compare, engines, fragile, gen_spec, quiet

RUNS = 1400
RULE = ('a seed draws two to four systems built from the same Python objects (or from overlapping ones), one history per '
        'system, and either an order in which the operations of all systems follow each other in one thread, with the '
        'caller changing its own objects in between, or a schedule of preemptions for two or three threads at the '
        'granularity of Python lines and calls into numpy; non-trivial if at least two systems were solved; distinct by '
        'configuration, operations and switch points')
SHRINK = ('sched', 'ops')
STUBS = 'numpy and scipy functions called by qmeq are wrapped by pass-through seams that are yield points of the scheduler'
ASSUMPTIONS = ['threads change hands at Python lines of qmeq and at calls from compiled code into numpy, scipy or user '
               'functions; a section of compiled code between two such points is one step',
               'each system is used by one thread']


def variant(rng, base, k):
    """A system with the same shapes as base: same arguments, other approach or settings."""
    s = copy.deepcopy(base)
    r = rng.random()
    if k == 0 or r < 0.3:
        return s
    if s['kind'] == 'base' and s['indexing'] not in ('Lin', 'sz', 'ssq') and s['symmetry'] is None:
        apps = FIRST + (['2vN'] if s['nsingle'] <= 1 else [])
    elif s['symmetry'] == 'spin' and s['indexing'] in ('charge', 'Lin'):
        apps = ['Redfield', '1vN', 'Lindblad']
    else:
        apps = FIRST
    s['kerntype'] = rng.choice(['', 'py'] if s['nsingle'] <= 2 else ['']) + rng.choice(apps)
    if r > 0.7:
        s['symq'] = rng.random() < 0.5
        s['norm_row'] = rng.choice([0, 1])
    if engines(s['kerntype']) in ('2vN', 'RTD'):
        s['mfreeq'] = False
    return s


def gen(rng, tier, i):
    threads = rng.random() < 0.45
    kinds = ('base', 'base', 'mb', 'mb', 'elph', 'mbelph')
    base = gen_spec(rng, kinds=kinds, nmax=2 if threads else 3, mfree=0.1,
                    approaches=('Pauli', 'Lindblad', 'Redfield', '1vN', 'Redfield', '1vN') if rng.random() < 0.85 else ('RTD', '2vN'))
    if engines(base['kerntype']) in ('2vN', 'RTD'):
        base['kpnt'] = 12
    if threads and base['kind'] in ('elph', 'mbelph') and rng.random() < 0.7:
        base['bath'] = rng.choice(['const', 'ohmic'])
    n = rng.choice([2, 2, 2, 3, 3, 4]) if not threads else rng.choice([2, 2, 3])
    specs = [variant(rng, base, k) for k in range(n)]
    per = rng.randint(1, 3) if tier == 'quick' else rng.randint(2, 6)
    lst = []
    w = {'edit': 3, 'direct': 1, 'solve': 2, 'set': 0.7, 'restrict': 1.2, 'burst': 0.3}
    hist = []
    for k, s in enumerate(specs):
        h = [dict(o, s=k) for o in gen_history(rng, s, per, w)]
        h = [dict({'o': 'build', 's': k}, bare=rng.random() < 0.15, fmt=rng.random() < 0.85)]+h
        if rng.random() < 0.85:
            h.append({'o': 'solve', 's': k, 'niter': 1})
        hist.append(h)
    # some edits are made with the same objects on several systems
    for k in range(1, n):
        for o in hist[0]:
            if o['o'] == 'edit' and rng.random() < 0.5:
                o.setdefault('id', len(lst)*100+rng.randint(0, 10**6))
                hist[k].insert(rng.randint(1, len(hist[k])), dict(o, s=k))
    tr = {'specs': specs, 'mode': 'threads' if threads else 'order'}
    if threads:
        tr['ops'] = [o for h in hist for o in h]
        p = rng.choice([0.5, 0.1, 0.02, 0.005])
        tr['sched'] = []
        for _ in range(rng.choice([3, 20, 100, 300])):
            gap = 1
            while rng.random() > p and gap < 2000:
                gap += 1
            tr['sched'].append([gap, rng.randint(0, 5)])
        tr['map'] = [k % rng.choice([2, 3]) if n > 2 else k for k in range(n)]
        return tr
    idx = [0]*n
    while any(idx[k] < len(hist[k]) for k in range(n)):
        k = rng.choice([k for k in range(n) if idx[k] < len(hist[k])])
        lst.append(hist[k][idx[k]])
        idx[k] += 1
        if rng.random() < 0.25:
            lst.append({'o': 'mutate', 's': -1, 'what': rng.choice(['ctor', 'ctor', 'edit', 'bath', 'out']),
                        'frac': round(rng.random(), 3), 'x': round(rng.uniform(3, 9), 3)})
    for k in range(n):
        lst.append({'o': 'solve', 's': k, 'niter': 1})
    tr['ops'] = lst
    return tr


# ---------------------------------------------------------------------------------------------------------------
# objects of the caller

def mutate(obj, x, frac):
    """What a caller may do to an object of his own."""
    if isinstance(obj, np.ndarray):
        if obj.size:
            obj[...] = obj*0.5+x if obj.dtype != object else obj
        return True
    if isinstance(obj, dict):
        for k in list(obj):
            v = obj[k]
            if isinstance(v, (tuple, list)):
                obj[k] = (-x-20, x+20)
            else:
                obj[k] = x
        return True
    if isinstance(obj, list):
        if obj and isinstance(obj[0], np.ndarray):
            for a in obj:
                mutate(a, x, frac)
        elif obj and isinstance(obj[0], list):
            for a in obj:
                a[-1] = x
            if frac < 0.3:
                obj.pop()
        elif obj and isinstance(obj[0], (int, float, complex)):
            obj[:] = [x]*len(obj)
            if frac < 0.2:
                obj.append(x)
        elif obj:
            obj.reverse()
        return True
    return False


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and all(same(x, y) if isinstance(x, np.ndarray) else x == y
                                                                 for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'eval'):
        return True
    return a == b


def dup(x):
    if isinstance(x, dict):
        return {k: dup(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dup(v) for v in x]
    if isinstance(x, np.ndarray):
        return np.array(x)
    return x


class Caller(object):
    """The objects a caller owns, and what they have to look like."""

    def __init__(self):
        self.ctor = {}          # argument sets shared by the systems built from them
        self.edits = {}
        self.all = []           # [name, object, copy]
        self.outs = []

    def own(self, name, obj):
        if isinstance(obj, (dict, list, np.ndarray)):
            self.all.append([name, obj, dup(obj)])

    def ctor_args(self, live_model, fmt):
        key = 'fmt' if fmt else 'plain'
        a = live_model.ctor_args(live_model.s['fmt'] if fmt else None)
        if key in self.ctor:
            for k, v in self.ctor[key].items():
                if k in a:
                    a[k] = v
        else:
            keep = {k: v for k, v in a.items() if isinstance(v, (dict, list, np.ndarray))}
            self.ctor[key] = keep
            for k, v in keep.items():
                self.own('constructor argument '+k, v)
        return a

    def edit_args(self, op, m):
        i = op.get('id')
        if i is not None and i in self.edits:
            return self.edits[i]
        a = ops.call_args(op, m)
        for k, v in a.items():
            self.own('%s argument %s' % (op['m'], k), v)
        if i is not None:
            self.edits[i] = a
        return a

    def check(self):
        for name, obj, was in self.all:
            if not same(obj, was):
                return 'caller: the %s was changed from %s to %s' % (name, short(was), short(obj))
        return None

    def mutate(self, op):
        if op['what'] == 'out':
            lst = self.outs
            if lst:
                mutate(lst[min(int(op['frac']*len(lst)), len(lst)-1)], op['x'], 1.0)
            return
        pre = {'ctor': 'constructor', 'bath': 'constructor argument bath', 'edit': ''}[op['what']]
        lst = [e for e in self.all if e[0].startswith(pre)]
        if not lst:
            raise Skip
        e = lst[min(int(op['frac']*len(lst)), len(lst)-1)]
        if e[0].endswith('bath_func'):
            for j in range(len(e[1])):
                e[1][j] = BATHS['const']() if type(e[1][j]) is BATHS['ohmic'] else BATHS['ohmic']()
        else:
            mutate(e[1], op['x'], op['frac'])
        e[2] = dup(e[1])
        # systems built from now on get new objects
        self.ctor = {}
        self.edits = {}


def short(x):
    r = repr(x)
    return r if len(r) < 120 else r[:117]+'...'


# ---------------------------------------------------------------------------------------------------------------

class Shared(Live):

    def __init__(self, spec, caller, op):
        self.model = Model(spec)
        self.caller = caller
        self.out = ''
        a = caller.ctor_args(self.model, op.get('fmt', True))
        self.bare = bool(op.get('bare')) and not self.model.many
        with quiet():
            if self.bare:
                # everything is supplied after construction
                late = {k: a.pop(k) for k in ('hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'velph', 'tlst_ph')
                        if k in a}
                late['dlst'] = a.pop('dband')
                if 'dband_ph' in a:
                    late['dlst_ph'] = a.pop('dband_ph')
                self.b = self.model.cls()(**a)
                self.b.change(**late)
            else:
                self.b = self.model.cls()(**a)
            if self.model.many and self.model.ph:
                self.b.funcp.itype_ph = spec['itype_ph']


def do_edit(live, op):
    m, b = live.model, live.b
    if m.many and any(k in ELEMS for k in op['p']):
        raise Skip
    args = live.caller.edit_args(op, m)
    with quiet():
        if op.get('via') == 'sub':
            parts = [(b.qd, ('hsingle', 'coulomb')), (b.leads, ('tleads', 'mulst', 'tlst', 'dlst'))]
            if m.ph:
                parts.append((b.baths, ('velph', 'tlst_ph', 'dlst_ph')))
            for obj, names in parts:
                sub = {k: v for k, v in args.items() if k in names}
                if sub:
                    getattr(obj, op['m'])(**sub)
        else:
            getattr(b, op['m'])(**args)
    m.edit(op['m'], op['p'])


class Player(object):
    """Plays operations on systems and records what each of them shows."""

    def __init__(self, trace, caller):
        self.trace, self.caller = trace, caller
        self.live = {}
        self.seen = {}

    def play(self, op):
        k = op['s']
        seen = self.seen.setdefault(k, [])
        obs = None
        try:
            if op['o'] == 'build':
                self.live[k] = Shared(self.trace['specs'][k], self.caller, op)
            elif k not in self.live:
                return
            elif op['o'] == 'edit':
                do_edit(self.live[k], op)
            else:
                obs = apply(self.live[k], op)
            how = 'done'
        except Skip:
            how = 'skip'
        except Exception as e:
            how = 'raises '+type(e).__name__
        if k in self.live:
            snap = snapshot(self.live[k])
            if obs is not None and self.caller is not None:
                b = self.live[k].b
                self.caller.outs += [x for x in (b.current, b.energy_current, b.heat_current) if x is not None]
        else:
            snap = {}
        seen.append([how, obs, snap])


def pack(x):
    """JSON form of an observation."""
    if isinstance(x, dict):
        return {'d': [[pack(k), pack(v)] for k, v in x.items()]}
    if isinstance(x, np.ndarray):
        if np.iscomplexobj(x):
            return {'c': [x.real.tolist(), x.imag.tolist()], 's': list(x.shape)}
        return {'a': x.tolist(), 's': list(x.shape), 't': str(x.dtype)}
    if isinstance(x, complex):
        return {'z': [x.real, x.imag]}
    if isinstance(x, tuple):
        return {'t': [pack(v) for v in x]}
    if isinstance(x, list):
        return {'l': [pack(v) for v in x]}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, np.complexfloating):
        return {'z': [x.real.item(), x.imag.item()]}
    return x


def unpack(x):
    if not isinstance(x, dict):
        return x
    if 'd' in x:
        return {unpack(k): unpack(v) for k, v in x['d']}
    if 'c' in x:
        return (np.array(x['c'][0])+1j*np.array(x['c'][1])).reshape(x['s'])
    if 'a' in x:
        return np.array(x['a'], dtype=x['t']).reshape(x['s'])
    if 'z' in x:
        return complex(*x['z'])
    if 't' in x:
        return tuple(unpack(v) for v in x['t'])
    return [unpack(v) for v in x['l']]


def alone(trace, k):
    """What system k shows when it is the only one in a process of its own."""
    def fn():
        p = Player(trace, Caller())
        for op in trace['ops']:
            if op['s'] == k:
                p.play(op)
        return {'seen': pack(p.seen.get(k, []))}
    how, res = forked(fn, 60.0)
    if how != 'ok' or 'seen' not in res:
        raise RuntimeError('the run of one system alone ends with %s: %s' % (how, str(res)[:500]))
    return unpack(res['seen'])


def differ(k, live, ref, seen, labels, stats):
    if len(ref) != len(seen):
        return 'system %d: %d operations instead of %d' % (k, len(seen), len(ref))
    for j, (a, b) in enumerate(zip(seen, ref)):
        at = 'system %d after %s' % (k, labels[j])
        if a[0] != b[0]:
            return '%s: %s instead of %s when alone' % (at, a[0], b[0])
        for n, v in b[2].items():
            w = a[2].get(n)
            if not equal(w, v) and not (isinstance(v, np.ndarray) and np.shape(w) == v.shape and v.dtype != object and
                                        np.allclose(w, v, rtol=1e-12, atol=1e-14)):
                return '%s: %s is %s instead of %s when alone' % (at, n, short(w), short(v))
        bump(stats, 'snapshots_compared')
        x, y = a[1], b[1]
        if (x is None) != (y is None):
            return '%s: results %s instead of %s' % (at, x is not None, y is not None)
        if x is None:
            continue
        bump(stats, 'results_compared')
        if x['success'] != y['success']:
            return '%s: success is %s instead of %s when alone' % (at, x['success'], y['success'])
        if x['success']:
            m = live.model
            what = ('pop',) if y.get('nocur') else ('current', 'energy_current', 'heat_current', 'pop')
            x, y = ({q: np.nan_to_num(v) if q in what else v for q, v in o.items()} for o in (x, y))
            msg = compare(x, y, m, rtol=1e-4 if m.set['mfreeq'] else 1e-8, what=what)
            if msg is not None and not fragile(m, y.get('niter')):
                return '%s: %s when alone' % (at, msg)
    return None


def run(trace, stats):
    # labels are those of the trace
    n = len(trace['specs'])
    refs = [alone(trace, k) for k in range(n)]
    caller = Caller()
    p = Player(trace, caller)
    done, msg = [], None
    mark(stats, 'configs', '+'.join(config(s) for s in trace['specs']))
    if trace['mode'] == 'order':
        for op in trace['ops']:
            if op['o'] == 'mutate':
                try:
                    caller.mutate(op)
                except Skip:
                    continue
                done.append('mutate:'+op['what'])
                bump(stats, 'faults_injected', 'caller changes its '+op['what'])
                continue
            p.play(op)
            done.append('%d.%s' % (op['s'], name(op)))
            bump(stats, 'operations', op['o'])
            msg = caller.check()
            if msg is not None:
                msg = 'after %s: %s' % (' '.join(done[-6:]), msg)
                break
        sig = ','.join(done)
    else:
        groups = {}
        for op in trace['ops']:
            groups.setdefault(trace['map'][op['s']], []).append(op)

        def body(lst):
            def fn():
                for op in lst:
                    p.play(op)
            return fn
        fns = [body(groups[g]) for g in sorted(groups)]
        s = sched.Scheduler(fns, trace['sched'])
        for how, e in s.run():
            if how == 'raise':
                raise e
        bump(stats, 'threaded_runs')
        stats['yield_points'] = stats.get('yield_points', 0)+s.points
        stats['thread_switches'] = stats.get('thread_switches', 0)+len(s.switches)
        for _, _, where, _ in s.switches:
            mark(stats, 'switch_places', where.split(':')[0])
        msg = caller.check()
        done = ['%d.%s' % (op['s'], name(op)) for op in trace['ops']]
        sig = ','.join(done)+'|'+';'.join('%d:%s' % (x[0], x[2]) for x in s.switches)
    if msg is None:
        for k in range(n):
            if k not in p.live:
                continue
            labels = [name(op) for op in trace['ops'] if op['s'] == k]
            msg = differ(k, p.live[k], refs[k], p.seen.get(k, []), labels, stats)
            if msg is not None:
                msg = 'after %s: %s' % (' '.join(done[-8:]), msg)
                break
    solved = sum(1 for k in range(n) if any(x[1] is not None for x in p.seen.get(k, [])))
    if solved > 1:
        import hashlib
        stats['case'] = ['+'.join(config(s) for s in trace['specs'])+'|'+hashlib.sha256(sig.encode()).hexdigest()[:16]]
        stats['sample'] = json.dumps({'systems': [config(s) for s in trace['specs']], 'mode': trace['mode'],
                                      'operations': done[:12]})
    if msg is None:
        return None
    kind = 'caller' if 'caller:' in msg else 'isolation'
    return {'kind': kind, 'msg': msg}


def name(op):
    return 'build' if op['o'] == 'build' else opname(op)
