"""C12: state reports are complete, ordered and honest about I/O failures."""

import json
import os
import shutil
import sys
import tempfile

import numpy as np

from sim import faults, files, ops
from sim.history import classify, config, gen_history, opname, snapshot, equal
from sim.ops import Live, apply
from sim.runner import bump, mark
from sim.world import Skip, compare, gen_spec, is_py, observe, quiet

RUNS = 6000
RULE = ('a seed draws a system, a history of edits, solves, restrictions and sortings with reports in between, and for '
        'each report the file it goes to, what the file holds before, and what the device does: accepts only a few bytes '
        'per write, fails at opening, writing (wholly or in part, once or for good) or closing, fills up, or the process '
        'is interrupted or dies there; non-trivial if a report was checked; distinct by configuration, operations and '
        'faults')
SHRINK = ('ops',)
STUBS = 'the raw layer below the text and buffer layers of io, and sys.stdout'
ASSUMPTIONS = ['a process that dies loses what has not reached the raw layer, nothing else']


def gen_fault(rng):
    at = rng.choice(['open', 'write', 'write', 'close', 'full', 'kill', 'line', 'stdout'])
    f = {'at': at, 'frac': round(rng.random(), 4), 'once': rng.random() < 0.5,
         'torn': rng.choice([0, 0, 1, 7, 40])}
    f['errno'] = {'open': rng.choice(['EACCES', 'EMFILE', 'ENOSPC', 'EIO', 'KeyboardInterrupt']),
                  'write': rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'KeyboardInterrupt']),
                  'close': rng.choice(['EIO', 'ENOSPC', 'EDQUOT']), 'full': 'ENOSPC', 'kill': '',
                  'stdout': rng.choice(['EPIPE', 'EIO']),
                  'line': rng.choice(['KeyboardInterrupt', 'MemoryError'])}[at]
    return f


def gen(rng, tier, i):
    spec = gen_spec(rng, kinds=('base', 'base', 'base', 'elph'), nmax=rng.choice([1, 2, 3, 3, 4]), spin=0.35)
    n = rng.randint(1, 4) if tier == 'quick' else rng.randint(3, 9)
    w = {'edit': 1.5, 'solve': 2, 'restrict': 3, 'set': 0.4}
    lst = [{'o': 'solve', 'niter': 1}] + gen_history(
        rng, spec, n, w, restriction={'kinds': ['sort', 'sort', 'sort', 'rm_states', 'use_all', 'rm_coh', 'rm_fock']})
    out = []
    for op in lst:
        out.append(op)
        if rng.random() < 0.7:
            out.append(gen_report(rng))
    if not any(op['o'] == 'report' for op in out):
        out.append(gen_report(rng))
    return {'specs': [spec], 'ops': out}


def gen_report(rng):
    op = {'o': 'report', 'how': rng.choice(['all', 'all', 'all', 'one', 'some']), 'mode': rng.choice(['w', 'w', 'a', None]),
          'eps': rng.choice([0.0, 0.0, 0.0, 1e-9, 0.3]), 'sep': rng.choice(['', '', '\n', '----\n', '# ']),
          'print': rng.random() < 0.4, 'frac': round(rng.random(), 3), 'file': rng.choice(['a', 'a', 'b']),
          'keep': rng.random() < 0.4, 'short': rng.choice([None, None, None, 1, 3, 17, 64]), 'nofile': rng.random() < 0.2}
    if rng.random() < 0.6:
        op['fault'] = gen_fault(rng)
    return op


# ---------------------------------------------------------------------------------------------------------------
# the reference: what a report says, checked against the Hamiltonian in the Fock basis

def expand(m):
    """Single-particle and Coulomb elements of all spins."""
    h, c = dict(m.par['hsingle']), dict(m.par['coulomb'])
    if m.s['symmetry'] == 'spin':
        n = m.s['nsingle']//2
        h.update({(i+n, j+n): v for (i, j), v in m.par['hsingle'].items()})
        c = {}
        for (i, j, k, l), v in m.par['coulomb'].items():
            if (i, j) != (l, k):
                # opposite spins; the element and its conjugate are given once if herm_c is set
                for x in ((i, j+n, k+n, l), (j, i+n, l+n, k)):
                    if not m.s['herm_c'] or (x[3], x[2], x[1], x[0]) not in c:
                        c[x] = v
                c[i, j, k, l] = c[i+n, j+n, k+n, l+n] = v
            elif i == j:
                c[i, i+n, i+n, i] = v
            else:
                for a in (0, n):
                    for b in (0, n):
                        c[i+a, j+b, k+b, l+a] = v
    return h, c


def apply_ops(state, seq):
    """Applies ('-', i) and ('+', i) to an occupation list; returns (sign, list) or None."""
    s, sign = list(state), 1
    for what, i in seq:
        if (what == '-') != (s[i] == 1):
            return None
        if sum(s[:i]) % 2:
            sign = -sign
        s[i] = 0 if what == '-' else 1
    return sign, s


def ham_times(m, vec, removed):
    """H v for a vector given as {occupation string: amplitude}, inside the space that is left."""
    h, c = expand(m)
    out = {}

    def put(state, res, amp):
        if res is not None:
            k = ''.join(map(str, res[1]))
            if k not in removed:
                out[k] = out.get(k, 0) + res[0]*amp
    for st, a in vec.items():
        s = [int(x) for x in st]
        for (i, j), v in h.items():
            put(s, apply_ops(s, [('-', i), ('+', j)]), a*v)
            if i != j and m.s['herm_hs']:
                put(s, apply_ops(s, [('-', j), ('+', i)]), a*np.conj(v))
        for (i, j, k, l), v in c.items():
            put(s, apply_ops(s, [('-', l), ('-', k), ('+', j), ('+', i)]), a*v)
            if m.s['herm_c'] and (i != l or j != k) and not (m.s['m_less_n'] and l > k):
                put(s, apply_ops(s, [('-', i), ('-', j), ('+', k), ('+', l)]), a*np.conj(v))
    return out


def parse(text, sep):
    """Blocks of a report; raises ValueError if the text is not a sequence of complete blocks."""
    out = []
    lines = text.split('\n')
    if lines[-1] != '':
        raise ValueError('does not end with a newline')
    lines = lines[:-1]
    seplines = sep.split('\n')
    pos = 0
    while pos < len(lines):
        for s in seplines[:-1]:
            if lines[pos] != s:
                raise ValueError('separator missing at line %d' % pos)
            pos += 1
        if not lines[pos].startswith(seplines[-1]):
            raise ValueError('separator missing at line %d' % pos)
        lines[pos] = lines[pos][len(seplines[-1]):]
        b = {'v': []}
        for key, name in (('sorted', 'Sorted label: '), ('label', 'Original label: '), ('charge', 'Charge: '),
                          ('sz', 'S^z [in units of 1/2]: '), ('ssq', 'S^2 [in units of 1/2]: '), ('E', 'Energy: ')):
            if pos < len(lines) and lines[pos].startswith(name):
                v = lines[pos][len(name):]
                b[key] = float(v) if key == 'E' else int(v)
                pos += 1
            elif key not in ('sz', 'ssq'):
                raise ValueError('%r missing at line %d' % (name, pos))
        if lines[pos] != 'Eigenstate coefficients:':
            raise ValueError('no coefficients at line %d' % pos)
        pos += 1
        while pos < len(lines) and lines[pos].startswith('    |'):
            st, v = lines[pos][5:].split('>: ')
            b['v'].append((st, complex(v)))
            pos += 1
        out.append(b)
    return out


def check_blocks(live, blocks, op, want):
    """The blocks are those of the states `want` (sorted labels), each a complete and true description."""
    m, si = live.model, live.b.si
    if [b['sorted'] for b in blocks] != list(want):
        return 'blocks: states %s instead of %s' % ([b['sorted'] for b in blocks], list(want))
    if len(set(b['label'] for b in blocks)) != len(set(want)):
        return 'blocks: a state appears under two labels'
    removed = set()
    n = m.s['nsingle']
    seen = []
    # remove_fock_states takes states as binary numbers
    if m.fock:
        removed = removed_strings(live)
    for b in blocks:
        where = 'block of state %d' % b['sorted']
        vec = dict(b['v'])
        if len(vec) != len(b['v']):
            return '%s: a component appears twice' % where
        amps = [abs(v) for _, v in b['v']]
        if any(a < x-1e-12 for a, x in zip(amps, amps[1:])):
            return '%s: components are not ordered by size' % where
        if any(a < op['eps'] for a in amps):
            return '%s: components below eps' % where
        for st in vec:
            if len(st) != n or st.count('1') != b['charge']:
                return '%s: component %s in charge %d' % (where, st, b['charge'])
            if 'sz' in b and st[:n//2].count('1')-st[n//2:].count('1') not in (b['sz'], -b['sz']):
                return '%s: component %s with S^z %d' % (where, st, b['sz'])
            if st in removed:
                return '%s: component %s was removed' % (where, st)
        if op['eps'] > 1e-6:
            continue
        norm = sum(a*a for a in amps)
        if abs(norm-1) > 1e-8:
            return '%s: norm is %.9g' % (where, norm)
        E = b['E']
        hv = ham_times(m, vec, removed)
        d = max(abs(hv.get(k, 0)-E*vec.get(k, 0)) for k in set(hv) | set(vec))
        if d > 1e-7*max(1.0, abs(E)):
            return '%s: not an eigenvector of the Hamiltonian with energy %.9g (off by %.3g)' % (where, E, d)
        seen.append((b, vec))
    # different blocks are orthogonal
    for i, (b, v) in enumerate(seen):
        for b2, v2 in seen[:i]:
            if b['label'] != b2['label'] and abs(sum(np.conj(v[k])*v2.get(k, 0) for k in v)) > 1e-7:
                return 'blocks: states %d and %d are not orthogonal' % (b2['sorted'], b['sorted'])
    return None


def removed_strings(live):
    return set(format(i, '0%db' % live.model.s['nsingle']) for i in live.model.fock)


def check_order(live, blocks):
    """The blocks follow the order that was asked for last."""
    o = live.model.order
    if o is None:
        return None
    if o[0] is None:
        return None
    srt = o[0]
    keys = {0: 'E', 1: 'charge', 2: 'sz', 3: 'ssq'}
    if not all(keys[k] in blocks[0] for k in srt):
        return None
    rows = [tuple(b[keys[k]] for k in srt) for b in blocks]
    for x, y in zip(rows, rows[1:]):
        if x > y and not close(x, y):
            return 'order: %s before %s when sorted by %s' % (x, y, [keys[k] for k in srt])
    return None


def close(x, y):
    for a, b in zip(x, y):
        if abs(a-b) > 1e-9:
            return a < b
    return True


# ---------------------------------------------------------------------------------------------------------------

class Out(object):
    """Standard output that can fail."""

    def __init__(self, k=None, err='EPIPE'):
        self.parts, self.k, self.n, self.err, self.fired = [], k, 0, err, False

    def write(self, s):
        n = self.n
        self.n += 1
        if self.k is not None and n >= self.k:
            self.fired = True
            raise OSError(getattr(files.errno, self.err), 'injected fault')
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)


class stdout_to(object):
    def __init__(self, out):
        self.out = out

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = self.out
        return self.out

    def __exit__(self, *a):
        sys.stdout = self.old


def content(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except IOError:
        return None


def call(live, op, path, states):
    b = live.b
    if op['how'] == 'all':
        a = {'eps': op['eps'], 'separator': op['sep']}
        if op['mode'] is not None:
            a['mode'] = op['mode']
        b.print_all_states(path, **a)
    else:
        for k in states:
            a = {'eps': op['eps'], 'prntq': op['print'], 'separator': op['sep']}
            if not op['nofile']:
                a['filename'] = path
            b.print_state(k, **a)


def state_of(live):
    b = live.b
    o = {k: v for k, v in snapshot(live).items()}
    o['Ea'] = np.array(b.qd.Ea)
    o['order'] = list(b.si.states_order)
    o['phi0'] = None if b.phi0 is None else np.array(b.phi0)
    o['current'] = None if b.current is None else np.array(b.current)
    return o


def report(live, op, w):
    m, b = live.model, live.b
    if m.diagH is None or m.diagH != m.Hkey():
        raise Skip          # eigenstates belong to other parameters, or have not been found yet
    if m.order is not None and (b.qd.Ea.shape != np.shape(m.order[1]) or not np.allclose(m.order[1], b.qd.Ea)):
        srtvalid = False
    else:
        srtvalid = True
    stats = w['stats']
    n = b.si.nmany
    if op['how'] == 'all':
        states = list(range(n))
    elif op['how'] == 'one':
        states = [min(int(op['frac']*n), n-1)]
    else:
        k = min(int(op['frac']*n), n-1)
        states = list(range(n))[k:k+3][::-1]
    to_file = op['how'] == 'all' or not op['nofile']
    if not to_file and not op['print']:
        raise Skip
    path = os.path.join(w['dir'], op['file'])
    if not op['keep'] and os.path.exists(path):
        os.remove(path)
    if op['keep'] and not os.path.exists(path) and op['frac'] < 0.5:
        with open(path, 'w') as f:
            f.write('notes of the user')
    old = content(path)
    before = state_of(live)

    def same():
        now = state_of(live)
        for k, v in before.items():
            if not (equal(v, now[k]) if not isinstance(v, list) else v == now[k]):
                return 'system: reporting changed %s' % k
        return None

    # what the report should be
    ref = os.path.join(w['dir'], 'ref')
    if os.path.exists(ref):
        os.remove(ref)
    with stdout_to(Out()) as out:
        call(live, dict(op, mode='w'), ref, states)
    clean = content(ref) if to_file else b''
    printed = op['how'] != 'all' and op['print']
    text = out.text()
    if not printed and text != '':
        return 'stdout: a report that goes to a file prints %r' % text[:60]
    src = clean.decode() if to_file else text
    if printed and to_file and text != src:
        return 'stdout: what is printed is not what is written'
    try:
        blocks = parse(src, op['sep'])
        msg = check_blocks(live, blocks, op, states)
        if msg is None and op['how'] == 'all' and srtvalid:
            msg = check_order(live, blocks)
    except (ValueError, IndexError) as e:
        msg = 'blocks: incomplete report: %s' % e
    if msg is None:
        msg = same()
    if msg is not None:
        return msg
    bump(stats, 'reports_checked', op['how'])
    bump(stats, 'blocks_checked_against_hamiltonian', str(min(len(blocks), 16)))
    replace = op['how'] == 'all' and op['mode'] in (None, 'w')
    base = b'' if replace or old is None else old
    want = base+clean if to_file else old

    # the report on the simulated device
    fl = op.get('fault')
    plan = files.Plan(w['dir'], None, op['short'])
    if fl is None:
        with stdout_to(Out()), files.files(plan):
            call(live, op, path, states)
        if plan.short:
            bump(stats, 'faults_injected', 'short writes')
        if content(path) != want:
            return 'file: %s' % differs(content(path), want)
        return same()

    msg = faulty(live, op, w, path, states, old, base, want, printed, text)
    if msg is None:
        msg = same()
    if msg is not None:
        return msg
    # repeating the report
    if not to_file:
        return None
    now = content(path)
    with stdout_to(Out()):
        call(live, op, path, states)
    if content(path) != (b'' if replace or now is None else now)+clean:
        return 'repeat: the report after a failed one: %s' % differs(content(path), (b'' if replace else now or b'')+clean)
    bump(stats, 'reports_repeated')
    return same()


def differs(a, b):
    if a is None or b is None:
        return 'exists: %s, should: %s' % (a is not None, b is not None)
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return '%d bytes instead of %d, different from byte %d on (%r instead of %r)' % (len(a), len(b), k, a[k:k+30], b[k:k+30])


def faulty(live, op, w, path, states, old, base, want, printed, text):
    fl, stats = op['fault'], w['stats']
    root = w['dir']
    at = fl['at']

    def put_back():
        if old is None:
            if os.path.exists(path):
                os.remove(path)
        else:
            with open(path, 'wb') as f:
                f.write(old)
    # number of points of each kind
    plan = files.Plan(root, None, op['short'])
    with stdout_to(Out()) as out, files.files(plan):
        call(live, op, path, states)
    if content(path) != want:
        return 'file: %s' % differs(content(path), want)
    put_back()
    n = {'open': plan.n['open'], 'write': plan.n['write'], 'close': plan.n['close'], 'kill': plan.n['write'],
         'full': plan.bytes, 'stdout': out.n}.get(at)
    err, fired = None, False
    if at == 'line':
        def action():
            with stdout_to(Out()):
                call(live, op, path, states)
        n = faults.count('line', action)
        put_back()
        f = faults.Fault('line', fl['errno'], min(int(fl['frac']*n), n-1))
        with files.files(files.Plan(root, None, op['short'])):
            try:
                with stdout_to(Out()), faults.line_seam(f):
                    call(live, op, path, states)
            except BaseException as e:
                err = e
        fired = f.fired
    elif not n:
        raise Skip
    elif at == 'stdout':
        with files.files(files.Plan(root, None, op['short'])):
            o = Out(int(fl['frac']*n), fl['errno'])
            try:
                with stdout_to(o):
                    call(live, op, path, states)
            except BaseException as e:
                err = e
        fired = o.fired
    elif at == 'kill':
        plan = files.Plan(root, dict(fl, k=int(fl['frac']*n)), op['short'])
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                with stdout_to(Out()), files.files(plan):
                    call(live, op, path, states)
            except BaseException:
                pass
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if os.WEXITSTATUS(status) != 77:
            return 'kill: the report ended before its write number %d' % plan.fault['k']
        bump(stats, 'faults_injected', 'process dies')
    else:
        plan = files.Plan(root, dict(fl, k=int(fl['frac']*n)), op['short'])
        with files.files(plan):
            try:
                with stdout_to(Out()):
                    call(live, op, path, states)
            except BaseException as e:
                err = e
        fired = plan.fired > 0
    if fired:
        bump(stats, 'faults_injected', '%s %s' % (at, fl['errno']))
        ok = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}.get(fl['errno'], OSError)
        if not isinstance(err, ok):
            return 'error: %s at %s ends as %r' % (fl['errno'], at, err)
    elif err is not None:
        return 'error: %r without a fault' % err
    now = content(path)
    if err is None and at != 'kill':
        if now != want:
            return 'file: %s' % differs(now, want)
        return None
    if now == old:
        return None
    if now is None:
        return 'file: a failed report removed the file'
    if not (want or b'').startswith(now) or (not now.startswith(base)):
        return 'file: after a failed report: %s' % differs(now, want)
    return None


def run(trace, stats):
    spec = trace['specs'][0]
    live = Live(spec)
    w = {'stats': stats, 'dir': tempfile.mkdtemp(prefix='c12-')}
    done, v, n = [], None, 0
    mark(stats, 'configs', config(spec))
    try:
        for op in trace['ops']:
            m0 = live.model.copy()
            try:
                if op['o'] == 'report':
                    msg = report(live, op, w)
                else:
                    obs = apply(live, op)
                    # reports in between do not disturb the solves
                    msg = ops.check_fresh(live, obs, stats) if obs is not None else None
            except Skip:
                bump(stats, 'skipped')
                continue
            except Exception as e:
                if op['o'] == 'report':
                    raise
                v = classify(live, m0, op, e, stats)
                break
            name = opname(op) if op['o'] != 'report' else 'report-%s%s/%s' % (
                op['how'], '' if op['short'] is None else '-short', (op.get('fault') or {}).get('at'))
            done.append(name)
            n += op['o'] == 'report'
            bump(stats, 'operations', name.split(':')[0].split('/')[0])
            if msg is not None:
                v = {'kind': msg.split(':')[0].split(' of state')[0], 'msg': 'after %s: %s' % (' '.join(done[-6:]), msg)}
                break
    finally:
        shutil.rmtree(w['dir'], ignore_errors=True)
    stats['case'] = [config(spec)+'|'+','.join(done)] if n else []
    if n:
        stats['sample'] = json.dumps({'system': config(spec), 'operations': done})
    return v
