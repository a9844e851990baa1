"""Writes /verif/known-findings.json from the table below and the log of /repo."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []      # {'id', 'property', 'status': 'known', 'site', 'what'}
# subject of the commit -> (properties, what failed)
FIXED = {
 'an interrupted iteration of 2vN': ('C08', 'continuing with restartq=False after an iteration was interrupted gave wrong results'),
 'remove_coherences relabels': ('C04', 'solve after remove_coherences read elements under stale numbers'),
 'set_statesdm of Pauli': ('C04 C09', 'restricting states of a Pauli or 2vN system appended to the list of the caller'),
 'approach switches and many-body': ('C03 C04', 'switching the approach lost the removed states, many-body systems lost their numbering'),
 'keep the phonon state indexing': ('C03 C04', 'phonon-coupled systems used stale state lists after a switch or restriction'),
 'compiled approaches use the present parameter': ('C01', 'compiled approaches solved with the arrays of the first solve after an assignment'),
 'RTD allocates its per-thread': ('C10 C04', 'RTD wrote beyond its per-thread copies after the number of states grew'),
 'RTD energy currents use': ('C04 C13', 'RTD energy currents of a restricted system took the energies of the wrong states'),
 'off-diagonal corrections of RTD can': ('C03', 'switching on off_diag_corrections after a solve failed'),
 'RTD leaves out removed': ('C04', 'RTD used coherences that had been removed'),
 'compiled kernel handler does not list': ('C04 C13', 'compiled approaches overran element 0 when coherences were removed'),
 'switching mfreeq': ('C03 C15', 'switching mfreeq on a solved system failed or used stale arrays'),
 'solmethod of a compiled': ('C03', 'setting solmethod before the first solve of a compiled approach crashed'),
 'make_kern_copy takes effect': ('C03', 'make_kern_copy on a prepared system had no effect'),
 'compare symmetry and itype': ('C01 C16', "symmetry and itype were compared by identity: an equal string was not recognised"),
 'coulomb elements given as': ('C01', 'Coulomb elements given as a list or array could not be changed to zero; float index arrays failed'),
 'tleads_array and update_Tba0': ('C01', 'tleads_array and the incremental updates disagreed with the stored amplitudes'),
 'single-particle dictionaries': ('C09 C11', 'the dictionaries of the caller were modified by add and change'),
 'edits of single-particle': ('C11', 'an edit interrupted half way recorded the parameter but not the matrices'),
 "Fock states can be removed": ('C04', "a second remove_fock_states with 'Lin' indexing failed"),
 'density matrix element lookups': ('C04', 'get_phi0/get_phi1 of removed states read the elements of other states'),
 'many-body builders copy': ('C09', 'many-body builders shared Ea, Tba and Vbbp with the caller'),
 'RTD Ozaki expansion': ('C01', 'RTD kept the expansion of earlier temperatures or bandwidths when they were lowered'),
 'RTD forgets complex': ('C01 C04', 'RTD kept treating the amplitudes as complex after they became real'),
 'errors inside compiled': ('C05 C14', 'exceptions inside compiled methods were printed and swallowed, the solve was reported as successful'),
 'the matrix-free root search': ('C15', 'the lm method reported success at the initial guess: generate_vec returns the work array it reuses'),
 'currents of matrix-free': ('C15', 'currents of matrix-free solves belonged to the last vector the search had tried'),
 'a matrix-free solve with an initial': ('C15', 'a guess of a wrong size was broadcast or read out of bounds, NaN results were successes'),
 'RTD does not use more threads': ('C10', 'raising the OpenMP thread limit after the first solve made RTD write outside its accumulators: random currents, heap corruption'),
 'a norm_row beyond': ('C13', 'compiled approaches wrote out of bounds (heap corruption) when norm_row is no equation, for example after states were removed'),
 'compiled approaches read beyond': ('C13', 'compiled approaches read beyond lead, bath and energy arrays with too few entries, where the Python ones raise IndexError'),
 'a Python Lindblad system': ('C13', 'a Python Lindblad system solved once with a too small Tba kept its jump operators of that size'),
 '2vN leaves out': ('C04 C13', '2vN with removed coherences: heap corruption (compiled), currents that do not add up to zero (Python)'),
 'the Python RTD approach failed when': ('C04 C13', 'pyRTD raised IndexError after remove_coherences, or used the element of another coherence'),
 'switching a system with indexing':  ('C03 C07', "a system with indexing='ssq' could be switched to 2vN or RTD, and the currents and the sum of the occupations were wrong"),
 'add with updateq=False': ('C01', 'leads.add, qd.add and baths.add with updateq=False failed or changed one spin only'),
 'the Python RTD approach failed for nearly': ('C13', 'the Python RTD approach raised TypeError, or differed from the compiled one, for nearly equal temperatures'),
 'solmethod could not be set': ('C05', 'setting solmethod after a preparation that was interrupted between two arrays raised AttributeError'),
 'RTD used an itype': ('C01 C03', 'RTD with itype assigned later, or kept through a switch, cut the rates at the band edges'),
 'an approach given as a class': ('C03', 'kerntype given as an Approach class raised AttributeError, or was ignored when assigned'),
 'the compiled approaches rejected': ('C13', 'compiled approaches raised ValueError for mtype_leads=float and for real or integer parameter arrays'),
 'change() truncated': ('C01', 'change() stored truncated values after an integer list or array had been assigned to mulst'),
 'switching to or from 2vN': ('C03', 'switching to or from 2vN restored the coherences that had been removed'),
 'compiled phonon-coupled Lindblad': ('C13 C07', 'compiled phonon-coupled Lindblad transferred coherences from the wrong state'),
}
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
items = []
for line in out.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    k = [x for x in FIXED if s[5:].startswith(x)]
    assert len(k) == 1, (s, k)
    for p in FIXED[k[0]][0].split():
        items.append({'property': p, 'status': 'fixed', 'commit': h,
                      'entry': 'fixed: property=%s %s %s' % (p, h, FIXED[k[0]][1])})
with open(os.path.join(HERE, 'known-findings.json'), 'w') as f:
    json.dump({'findings': KNOWN+items}, f, indent=1)
    f.write('\n')
print(len(items), 'fixed entries,', len(KNOWN), 'known')
