"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if hook is not None:
        anchors['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': anchors})


APPR = ['qmeq/approach/aprclass.py', 'qmeq/approach/c_aprclass.pyx']

prop('C01', 'An edited system solves like one built directly with those parameters',
     'After any sequence of additions, changes and assignments to the level energies, Coulomb elements, tunnelling '
     'amplitudes, chemical potentials, temperatures, bandwidths or phonon couplings of a system, in any documented '
     'input format and with solves at arbitrary points in between, the next solve gives the same particle, energy and '
     'heat currents and the same occupations as a new system constructed with the resulting parameter values. '
     'This holds for every approach (compiled and pure Python), indexing, symmetry and builder kind.',
     ['histories', 'inputs', 'configurations'],
     'all finite sequences of edits and solves on every builder kind, approach, indexing and input format',
     'The tests build a system, solve it once and compare with stored numbers; the few that edit do it once, on an unsolved '
     'system. Stale copies, missed updates and double counting need a particular order of edits around solves.',
     ['qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py', 'qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py'] + APPR,
     [('incremental Hamiltonian, tunnelling and coupling updates', 'QuantumDot.add/change, LeadsTunneling.add/change, PhononBaths.add/change'),
      ('input normalisation', 'make_hsingle_dict, make_coulomb_dict, make_tleads_dict, make_velph_dict, make_array, make_array_dlst'),
      ('reuse of prepared arrays', 'Approach.prepare_kern / clean_arrays'),
      ('attribute routing', 'BuilderBase.__getattr__/__setattr__, attribute_map')],
     ['system.current', 'system.energy_current', 'system.heat_current', 'system.phi0', 'system.Ea'],
     [('hsingle/coulomb/tleads/velph dictionaries', 'accumulated single-particle parameters'),
      ('hamlst, Tba0, Vbbp0', 'many-body matrices updated in place by differences')])

prop('C02', 'Solving again, or in stages, changes nothing',
     'Solving an unchanged system any number of times gives the same currents and occupations each time, and splitting a '
     'solve into its stages (diagonalise and rotate; master equation with or without currents; everything again) ends in '
     'the same results as one full solve. Solving never alters the parameters the user supplied.',
     ['histories', 'configurations'],
     'all sequences of full and partial solves on every approach, builder kind, solver setting and state restriction',
     'Tests solve each object once or compare one pair of calls; accumulation in reused arrays shows only from the second '
     'solve on, in a particular configuration (least squares, kept kernel copy, off-diagonal corrections, phonons).',
     APPR + ['qmeq/approach/base', 'qmeq/approach/elph', 'qmeq/wrappers/c_lapack.pyx', 'qmeq/approach/kernel_handler.py',
             'qmeq/approach/c_kernel_handler.pyx', 'qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/qdot.py'],
     [('zero-fill and reuse of arrays', 'clean_arrays() of every approach'),
      ('in-place LAPACK solve on the kernel', 'Approach.solve_kern, LapackSolverDGESV/DGELSD'),
      ('rotation from the Fock basis', 'LeadsTunneling.rotate, PhononBaths.rotate')],
     ['system.solve(qdq, rotateq, masterq, currentq)', 'system.current', 'system.phi0', 'system.phi1'])

prop('C03', 'Approach and solver settings can be switched on a live system',
     'Switching the approach (given by its name or by its class), the square/least-squares formulation, the normalisation row, the solution method, the '
     'matrix-free mode, the treatment of principal-value integrals, the off-diagonal corrections or the kernel-copy '
     'option of an already solved system, in any order and any number of times, gives at the next solve the results of a '
     'new system constructed with the settings then in force. Parameters and state restrictions made before the switch '
     'stay in force.',
     ['histories', 'configurations'],
     'all sequences of setting changes and solves, over all approaches and builder kinds',
     'Tests set options at construction, or switch once between two approaches; a missed invalidation depends on which '
     'setting was in force when the working arrays were last allocated.',
     APPR + ['qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py', 'qmeq/builder/funcprop.py', 'qmeq/builder/validation.py'],
     [('property setters invalidating prepared state', 'Approach.symq/solmethod/mfreeq/norm_row/itype setters'),
      ('approach replacement', 'BuilderBase.set_kerntype, change_si, BuilderElPh.change_si'),
      ('solver selection', 'Approach.prepare_solver, LapackSolver*')],
     ['system.kerntype', 'system.symq', 'system.solmethod', 'system.norm_row', 'system.mfreeq', 'system.itype', 'system.current', 'system.success'],
     [('is_prepared, states_changed', 'whether the working arrays fit the current settings')])

prop('C04', 'State restrictions behave the same whenever they are applied',
     'Removing high-energy states, coherences or Fock states, restoring all states, and re-sorting eigenstates may be done '
     'before or after solves, repeatedly and in any order: the next solve equals that of a new system on which only the '
     'restrictions still in force were applied. Restoring all states gives back exactly the unrestricted results, and '
     'sorting only relabels states in reports and element lookups.',
     ['histories', 'configurations'],
     'all sequences of restrictions, restorations, sorts, edits and solves over every approach, indexing and builder kind',
     'Tests apply one restriction to a fresh system; index maps and working arrays of the wrong size need a restriction '
     'after a solve or a second restriction.',
     ['qmeq/builder/various.py', 'qmeq/indexing.py', 'qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py',
      'qmeq/approach/kernel_handler.py', 'qmeq/approach/c_kernel_handler.pyx'] + APPR,
     [('choice of states', 'remove_states, use_all_states, set_statesdm, remove_fock_states'),
      ('element maps', 'set_dictdm, set_mapdm, remove_coherences'),
      ('array reallocation', 'states_changed flag and prepare_kern')],
     ['system.current', 'system.phi0', 'system.get_phi0(b, bp)', 'system.si'],
     [('statesdm, mapdm0, ndm0r', 'states and density-matrix elements taking part')])

prop('C05', 'An interrupted or failing solve is visible and leaves the system usable',
     'If a solve is cut short at any point by an interrupt, by memory exhaustion or by an exception in a numerical '
     'routine, the caller is told: the exception reaches the caller, or, only for errors raised inside the linear or '
     'root solver, the solve reports failure through its success flag. The user\'s parameters are unchanged, and the next '
     'undisturbed solve gives exactly the results of a system that was never interrupted.',
     ['crash_points', 'fault_sequences', 'histories', 'configurations'],
     'every point inside a solve at which an exception can surface, for every approach, repeated interruptions included',
     'No test interrupts a solve. The number of points where an asynchronous exception can land is in the thousands per '
     'solve, and compiled functions without an error return lose exceptions silently.',
     APPR + ['qmeq/approach/base', 'qmeq/approach/elph', 'qmeq/wrappers/c_lapack.pyx', 'qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py'],
     [('staged solve', 'Approach.solve: diagonalise, rotate, prepare_kern, generate_*, solve_*'),
      ('preparation flag set last', 'Approach.prepare_kern'),
      ('exception propagation out of compiled code', 'cdef/cpdef methods of the approach classes')],
     ['exceptions out of system.solve()', 'system.success', 'system.current after a retry'])

prop('C06', 'A failed linear solve is reported and never contagious',
     'When the stationary equation cannot be solved (singular kernel or failing linear algebra) solve() does not raise: '
     'it sets success to False, returns zero occupations instead of stale or partial ones, and warns exactly once per '
     'system. As soon as the equation is solvable again success is True and the results equal those of a new system.',
     ['fault_sequences', 'histories', 'configurations'],
     'all sequences of solvable and unsolvable solves, by parameters or by injected solver failure, on every approach',
     'Tests only meet solvable systems or a single failure; recovery after failures and the warn-once rule need a sequence.',
     APPR + ['qmeq/builder/funcprop.py', 'qmeq/wrappers/c_lapack.pyx'],
     [('error branch of the linear solve', 'Approach.solve_kern (compiled: LAPACK info; Python: except branch)'),
      ('one-time warning', 'FunctionProperties.print_error')],
     ['system.success', 'system.phi0', 'system.current', 'standard output'])

prop('C07', 'Every successful solve conserves probability and charge',
     'After every solve that reports success, at any point of any history, the occupations sum to one, the density matrix '
     'is Hermitian, the particle currents of all leads sum to zero, and each heat current equals the energy current minus '
     'chemical potential times particle current. For the Pauli and Lindblad approaches without phonons the energy '
     'currents also sum to zero.',
     ['histories', 'configurations', 'inputs', 'fault_sequences'],
     'every successful solve reached by any sequence of edits, setting changes, restrictions and faults, every approach',
     'Tests compare a handful of fixed parameter sets with stored numbers; the laws must hold in every state the object '
     'can be driven into.',
     APPR + ['qmeq/approach/base', 'qmeq/approach/elph', 'qmeq/approach/kernel_handler.py', 'qmeq/approach/c_kernel_handler.pyx'],
     [('normalisation row', 'generate_norm_vec, solve_kern, generate_vec'),
      ('currents', 'generate_current of every approach'),
      ('element lookup', 'get_phi0 / get_phi0_element')],
     ['system.phi0', 'system.current', 'system.energy_current', 'system.heat_current', 'system.get_phi0(b, bp)'])

prop('C08', 'Iterative second-order solves can be split, observed, aborted and resumed',
     'For the iterative second-order approach, running n iterations and then continuing for m more gives the same results '
     'as n+m iterations at once, and restarting gives the results of a new system. The user function runs exactly once '
     'after every iteration, one record per iteration is kept and never altered later, and aborting from the user '
     'function loses no completed iteration: continuing proceeds as if there had been no abort. An iteration that is '
     'interrupted or fails partway leaves no trace either: continuing repeats it.',
     ['histories', 'crash_points', 'configurations'],
     'all ways of splitting, restarting, observing and aborting sequences of iterations, compiled and pure Python, with edits in between',
     'Tests run a fixed number of iterations once from the start.',
     ['qmeq/approach/aprclass.py', 'qmeq/approach/base/neumann2.py', 'qmeq/approach/base/c_neumann2.pyx'],
     [('iteration loop', 'ApproachBase2vN.solve / iteration'),
      ('per-iteration record', 'Iterations2vN'),
      ('continuation state', 'phi1k, phi1k_delta, kern1k_inv, Ek_grid, is_zeroth_iteration')],
     ['system.iters', 'system.niter', 'system.current', 'func_iter callback'])

prop('C09', 'Systems are isolated from each other and from the caller\'s data',
     'Operations on one system, interleaved in any order or from several threads with operations on other systems built '
     'from the same Python objects, never change the parameters or results of those other systems. The dictionaries, '
     'lists and arrays a caller passes to constructors or editing methods are never modified, and modifying them later '
     'does not affect systems constructed from them.',
     ['schedules', 'histories', 'configurations'],
     'all interleavings of operation sequences on up to four systems in up to three threads, sharing input objects',
     'Tests use one system at a time; aliasing and module-level caches show only when two systems share inputs and their '
     'operations are interleaved.',
     ['qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py', 'qmeq/builder/various.py', 'qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/indexing.py'] + APPR,
     [('copy of constructor data', 'ModelParameters / _init_copy_data'),
      ('parameter dictionaries', 'make_*_dict returning the caller\'s dictionary'),
      ('shared defaults', 'mutable default arguments, module globals')],
     ['results of each system', 'caller-owned objects'])

prop('C10', 'Results do not depend on the number or scheduling of OpenMP threads',
     'With any number of worker threads and any interleaving of their memory accesses, the compiled approaches give the '
     'same currents and occupations as single-threaded execution, up to rounding of reordered sums. This also holds after '
     'the number of states taking part has grown or shrunk.',
     ['schedules', 'configurations', 'histories'],
     'all team sizes from 1 to 16 and all interleavings of worker memory accesses, on every compiled first-order and RTD system',
     'The tests run with one OpenMP thread, where no interleaving exists; with real threads the schedule is not controlled '
     'and a lost update is rare.',
     ['qmeq/approach/c_aprclass.pyx', 'qmeq/approach/base/c_RTD.pyx', 'qmeq/approach/c_kernel_handler.pyx', 'qmeq/approach/base', 'qmeq/approach/elph'],
     [('parallel kernel generation', 'Approach.generate_kern (prange), ApproachRTD.generate_kern (three pranges)'),
      ('per-thread accumulators', 'nbr_Wdd2_copies, Wdd2[t_id]')],
     ['system.current', 'system.phi0', 'system.kern'],
     hook=False)

prop('C11', 'A failed or interrupted edit never leaves the system half-edited',
     'If an edit is rejected because of a bad key, index or value, or is cut short by an interrupt or memory exhaustion, '
     'the recorded parameters and the matrices used by later solves still agree with each other: solving gives the result '
     'of a system built from the parameters the system reports. Repeating the complete edit correctly gives the same '
     'result as if the failed attempt had never happened, where the edit sets (rather than adds) values.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every failing edit of every kind and every interruption point inside an edit, followed by further edits and solves',
     'No test makes an edit fail. Dictionaries and matrices are updated in two steps, so a failure between them goes '
     'unnoticed until a later solve.',
     ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py'],
     [('two-step update', 'QuantumDot.change/add, LeadsTunneling.change/add, PhononBaths.change/add'),
      ('in-place accumulation', 'construct_ham_coulomb, construct_ham_hopping, construct_Tba, elph_construct_Vbbp')],
     ['exceptions out of system.add()/change()', 'system.hsingle', 'system.coulomb', 'system.tleads', 'system.velph', 'system.current'])

prop('C12', 'State reports are complete, ordered and honest about I/O failures',
     'Printing one state or all states to a file writes one complete block per state in the current sort order, after '
     'whatever the file held (append) or replacing it (write), also when the underlying device accepts only part of each '
     'write. If opening, writing or closing fails, the error reaches the caller, earlier complete blocks stay intact, the '
     'system is unchanged, and repeating the report gives the complete file.',
     ['fault_sequences', 'crash_points', 'histories'],
     'all fault positions (open, short write, full disk, I/O error, close) in reports of every indexing, sort order and restriction',
     'The printing functions are not tested at all; faults of the file system cannot be sampled by unit tests.',
     ['qmeq/builder/various.py', 'qmeq/builder/builder_base.py'],
     [('file output', 'print_state, print_all_states'), ('sort order', 'sort_eigenstates, states_order')],
     ['file contents', 'exceptions', 'standard output'])

prop('C13', 'Compiled and pure-Python engines never diverge',
     'Two systems with the same parameters, one using a compiled approach and one its pure-Python counterpart, driven by '
     'the same sequence of edits, setting changes, restrictions and solves, report the same particle, energy and heat '
     'currents and occupations, up to numerical accuracy, after every solve, and agree on whether the solve succeeded.',
     ['histories', 'configurations', 'inputs'],
     'all operation sequences on replica pairs over Pauli, Lindblad, Redfield, 1vN, 2vN, RTD, with and without phonons',
     'Tests compare each engine with stored numbers for a few parameter sets in a single solve.',
     APPR + ['qmeq/approach/base', 'qmeq/approach/elph', 'qmeq/specfunc', 'qmeq/approach/kernel_handler.py', 'qmeq/approach/c_kernel_handler.pyx'],
     [('twin implementations', 'qmeq/approach/*/X.py and c_X.pyx, specfunc.py and c_specfunc.pyx')],
     ['system.current', 'system.energy_current', 'system.heat_current', 'system.phi0', 'system.success'])

prop('C14', 'Errors raised by user-supplied functions reach the caller',
     'An exception of any type raised by a function the user supplied (phonon density of states, per-iteration callback) '
     'propagates unchanged out of solve(), wherever in the calculation and however often it has been called before, for '
     'compiled and pure-Python approaches alike. Afterwards a solve with a well-behaved function gives the results of a '
     'new system.',
     ['crash_points', 'fault_sequences', 'configurations'],
     'every call of a user function during a solve raising, every exception kind, all approaches that accept user functions',
     'No test supplies a failing function; compiled callers without an error return silently continue with partial sums.',
     ['qmeq/specfunc/specfunc_elph.py', 'qmeq/specfunc/c_specfunc_elph.pyx', 'qmeq/approach/elph', 'qmeq/approach/aprclass.py', 'qmeq/approach/base/neumann2.py'],
     [('bath density of states', 'Func*.dos/eval/integrand in specfunc_elph, c_specfunc_elph'),
      ('per-iteration callback', 'ApproachBase2vN.solve(func_iter)')],
     ['exceptions out of system.solve()', 'system.current after recovery'])

prop('C15', 'Matrix-free solves never present a wrong result as success',
     'A matrix-free solve that reports success agrees with the direct solution of the same system to the accuracy of the '
     'root finder, whatever the initial guess, the solution method and the history of earlier solves. A search that does '
     'not converge, or fails inside the root finder, is reported through success being False, never by stale or '
     'silently wrong currents marked successful, and the following solve is not affected by it. That the default guess '
     'is used is said once for a system.',
     ['histories', 'fault_sequences', 'configurations', 'inputs'],
     'all sequences of matrix-free and direct solves, initial guesses, root-finder failures and convergence limits, first-order approaches',
     'Tests run one matrix-free solve per approach from the default guess.',
     APPR + ['qmeq/approach/kernel_handler.py', 'qmeq/approach/c_kernel_handler.pyx'],
     [('kernel action', 'Approach.generate_vec, KernelHandlerMatrixFree'), ('root search', 'Approach.solve_matrix_free')],
     ['system.success', 'system.phi0', 'system.current'])

prop('C16', 'Results depend only on the parameters, never on leftover memory or process state',
     'The same sequence of operations gives identical results whatever the process did before, whatever bytes freshly '
     'allocated memory happens to hold, and whatever the hash seed is.',
     ['histories', 'configurations', 'fault_sequences'],
     'all operation sequences under poisoned allocations, different process histories and different hash seeds',
     'Fresh memory is zero in a short test process, so reading memory before writing it gives the right answer there.',
     APPR + ['qmeq/approach/base', 'qmeq/approach/elph', 'qmeq/specfunc', 'qmeq/wrappers/c_lapack.pyx', 'qmeq/indexing.py'],
     [('work arrays', 'prepare_arrays of every approach'), ('malloc work space', 'LapackSolverDGELSD/DGESV')],
     ['system.current', 'system.phi0', 'system.kern'])

prop('C17', 'Fermi, digamma and principal-value integrals are accurate',
     'The special functions behind the tunnelling rates agree with their mathematical definitions to stated accuracy over '
     'the whole admissible argument range.',
     ['inputs'], 'all real/complex arguments', 'Tests evaluate a few points.',
     ['qmeq/specfunc/specfunc.py', 'qmeq/specfunc/c_specfunc.pyx'], [('special functions', 'func_pauli, digamma, polygamma, integralD, integralX')],
     ['function values'])

prop('C18', 'Index maps are bijections consistent with quantum numbers',
     'For every number of levels and every indexing, state labels, occupation lists and quantum numbers map one to one, and '
     'density-matrix element indices never collide.',
     ['inputs', 'configurations'], 'all sizes and indexings', 'Tests cover up to four levels.',
     ['qmeq/indexing.py'], [('index maps', 'StateIndexing, StateIndexingDM, StateIndexingDMc')], ['get_ind, get_state, get_ind_dm0'])

prop('C19', 'Physical results are invariant under relabelling, units and indexing',
     'Permuting levels or leads, rescaling all energies, gauge phases of tunnelling amplitudes and the choice of state '
     'indexing or spin symmetry do not change the physics.',
     ['inputs', 'configurations'], 'all systems and transformations', 'Tests use one labelling.',
     ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/indexing.py'], [('model construction', 'QuantumDot, LeadsTunneling')], ['currents'])

prop('C20', 'Equilibrium carries no current and satisfies the second law',
     'With equal temperatures and chemical potentials all currents vanish for thermodynamically consistent approaches, and '
     'heat flows satisfy the second law.',
     ['inputs'], 'all systems at and out of equilibrium', 'Not tested.',
     ['qmeq/approach/base/pauli.py', 'qmeq/approach/base/c_pauli.pyx'], [('rates', 'generate_fct')], ['currents'])

prop('C21', 'Invalid option values fall back to documented defaults with a warning',
     'Unsupported values of approach, indexing, integral type or symmetry at construction are replaced by the documented '
     'default and announced.',
     ['inputs', 'configurations'], 'all option values', 'Partially tested.',
     ['qmeq/builder/validation.py', 'qmeq/indexing.py'], [('validation', 'validate_*')], ['constructed options', 'standard output'])

if __name__ == '__main__':
    with open(os.path.join(HERE, '..', 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
