"""Writes /verif/MANIFEST.json: a check for every module in checks/, not_applicable for the rest."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'C01': 'seeded simulation of edit histories; new-system reference model after every solve',
    'C02': 'seeded simulation of staged and repeated solves; reference model and parameter snapshots',
    'C03': 'seeded simulation of setting-switch histories; new-system reference model',
    'C04': 'seeded simulation of restriction histories; new-system reference model, lookup references',
    'C05': 'deterministic simulation with exceptions injected at chosen points inside solves; reference model on retry',
    'C06': 'deterministic simulation with injected solver failures and unsolvable parameters in histories',
    'C07': 'conservation laws as invariants during seeded simulated histories',
    'C08': 'seeded simulation of split, restarted and aborted iterations; one-shot reference run',
    'C09': 'seeded interleaving of several systems on simulated client threads; per-system reference run',
    'C10': 'simulated OpenMP runtime with seeded schedules at memory-access granularity; single-threaded reference',
    'C11': 'deterministic simulation with rejected and interrupted edits; reference models of reported and intended parameters',
    'C12': 'simulated file device with seeded short writes, full disk and I/O errors; reference model of the file',
    'C13': 'seeded lockstep simulation of replica pairs (compiled and Python engine)',
    'C14': 'deterministic simulation with user functions failing at seeded calls; exception identity and reference model',
    'C15': 'seeded simulation of matrix-free histories with injected root-finder failures; direct solution as reference',
    'C16': 'deterministic simulation with poisoned allocations, prior workloads and hash seeds; bitwise comparison of runs',
}
NOTE = ('Seeded search over simulated runs: what is covered is the sampled histories, faults and schedules, reported in the '
        'evidence file; it is not an exhaustive argument.')
NA = {
    'C17': 'pure function of its arguments: no schedule, history, fault or clock for a simulation to decide',
    'C18': 'pure function of the number of levels and the indexing: nothing nondeterministic to simulate',
    'C19': 'relation between results of unrelated inputs (metamorphic numerics); no interleaving, history or fault is involved',
    'C20': 'a statement about the physics of one calculation as a function of its input, not about histories or faults',
    'C21': 'pure input validation at construction; no schedule, history or fault is involved',
}

checks = []
na = [{'property': k, 'reason': v} for k, v in NA.items()]
for p in sorted(TECH):
    if os.path.exists(os.path.join(HERE, 'checks', p.lower()+'.py')):
        checks.append({'property': p, 'quick_cmd': 'python3 run.py %s --tier quick' % p,
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % p, 'technique': TECH[p],
                       'level': 'exploration', 'level_note': NOTE, 'evidence_file': 'evidence/%s.json' % p})
    else:
        na.append({'property': p, 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks,
     'not_applicable': sorted(na, key=lambda x: x['property']),
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: every seam is taken from outside (module attributes, '
               'sys.settrace, replaced OpenMP runtime, simulated files)', 'source_commits': []},
     'notes': 'Everything runs from /verif against the working tree of /repo; see DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
