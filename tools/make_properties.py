#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

S = 'scaks/solvers/steady_state_solver.py'
M = 'scaks/solvers/mean_field_solver.py'
KM = 'scaks/models/kinetic_model.py'
MK = 'scaks/models/micro_kinetic_model.py'
KP = 'scaks/solvers/kmc_plugins/'

prop('C01', 'Ranks of one job can all build their models at once, each with own files',
     "When the ranks of one parallel job build their mean-field (microkinetic) models at the same time in one working directory, every rank finishes and nobody waits for ever, whatever the interleaving, whether or not the log and data directories exist already, and even when another program creates them meanwhile. "
     "Afterwards every rank's log records are in that rank's own log file only, its results go to that rank's own result file only, and both directories exist. "
     "A serial run uses the serial log and result file names and creates neither directory.",
     ['schedules', 'configurations', 'fault_sequences'],
     'all interleavings of 1..6 ranks, both directories present or absent, an external creator racing, several models per rank',
     'The test suite runs on one rank only, where no barrier, directory creation or per-rank file name is reached.',
     [KM, MK, 'scaks/mpicommons.py'],
     [('log file per rank', KM + ':_set_logger'), ('data directory', MK + ':__init__'), ('result file per rank', MK + ':data_file')],
     ['files under ./log and ./data of the working directory', 'return of the model constructor on every rank'])
prop('C02', 'Work divided over ranks and merged again is exactly the serial work',
     "For every number of ranks and every sequence, the parts that the ranks receive are disjoint, contiguous, in order and complete, and part sizes for every total differ by at most one and add up to the total. "
     "Merging gives every rank the whole result in serial order, a broadcast gives every rank the master's value, and master-only functions have their effect once, so a scan computed in parallel equals the serial scan. "
     "This holds for every interleaving and rank delay, including sequences shorter than the number of ranks.",
     ['schedules', 'inputs', 'configurations'],
     'ranks 1..7, sequence lengths 0..40 of mixed values, all interleavings of split/merge/broadcast/barrier sequences',
     'Nothing in the test suite runs these helpers, and certainly not on more than one rank.',
     ['scaks/mpicommons.py'],
     [('split_seq / split_size / merge_seq / bcast / master_only', 'scaks/mpicommons.py')],
     ['values returned on each rank'])
prop('C03', 'kMC frequency output counts every event once, for the right reaction',
     "After a kinetic Monte Carlo run the frequency output holds, for every process, exactly the number of times the engine executed it at the analysed steps, attributed to the reaction and direction of that process, both over the whole run and over the statistics window that begins at the requested start step. "
     "Reaction rates are the window counts per site per elapsed window time. "
     "The totals equal the number of analysed steps, for any event history, analysis interval and process list, including fast and redistribution processes and repeated queries of the process list.",
     ['histories', 'configurations', 'inputs'],
     'all engine event histories; lattices, process lists with several basis sites, coordinate groups, fast and redistribution processes; start steps before, inside and after the run; analysis intervals',
     'The kMC engine is not installed, so every kMC test fails at start; the two tests that would run it look at one seed and compare no counts.',
     [KP + 'frequency_analysis.py', 'scaks/solvers/kmc_solver.py', 'scaks/models/kmc_model.py'],
     [('occurrence counters', KP + 'frequency_analysis.py:registerStep'), ('process mapping', 'scaks/solvers/kmc_solver.py:__get_single_process')],
     ['auto_frequency.py'])
prop('C04', 'kMC coverage output is the complete, exact time series of the lattice',
     "The coverage output of a finished kinetic Monte Carlo run contains one record for the initial state and one per analysed step, in order, without loss or repetition at any buffer boundary. "
     "Each record holds the true step, time and weighted fraction of lattice sites occupied by every declared species, in declared order, with the empty type taking the rest so that fractions add up to one.",
     ['histories', 'configurations', 'inputs'],
     'all engine histories around and beyond the buffer length; species lists with the empty type at any position; per-basis-site weights',
     'Existing kMC tests cannot start without the engine and check no values.',
     [KP + 'coverages_analysis.py', KP + 'kmc_functions.py'],
     [('buffer and flush', KP + 'coverages_analysis.py:__flush'), ('weighted counting', KP + 'kmc_functions.py:collect_coverages')],
     ['auto_coverages.py'])
prop('C05', 'kMC instantaneous turnover output accounts for every event in its window',
     "The instantaneous turnover output divides the simulated time from the start of the simulation into consecutive windows that are each longer than the requested interval and close at the first analysed step beyond it. "
     "Each window records its start time and, for every process in the listed order, the number of events in it per site and per elapsed window time, so that multiplied out they give back every event before the last closing; no window is lost, repeated or split at a buffer boundary.",
     ['histories', 'configurations'],
     'all engine histories, start times, intervals and numbers of windows below, at and beyond the buffer length',
     'Existing kMC tests cannot start without the engine and check no values.',
     [KP + 'tof_analysis.py'],
     [('window accounting', KP + 'tof_analysis.py:registerStep'), ('buffer and flush', KP + 'tof_analysis.py:__flush')],
     ['auto_tofs.py'])
prop('C06', 'A parallel kMC run leaves the same files as a serial one',
     "When several ranks run the same kinetic Monte Carlo simulation in one working directory, the analysis and script files left behind are identical to those of a one-rank run, whatever the interleaving, because only the master writes them and no other rank truncates or appends to them.",
     ['schedules', 'histories'],
     'interleavings of 2..4 ranks at every file operation and engine step, for all analyses',
     'No test runs more than one rank, and the engine is not installed.',
     [KP + 'frequency_analysis.py', KP + 'tof_analysis.py', KP + 'coverages_analysis.py', KP + 'event_analysis.py', 'scaks/solvers/kmc_solver.py'],
     [('master-only file output', KP), ('script output', 'scaks/solvers/kmc_solver.py:script_decorator')],
     ['auto_*.py and auto_events.txt in the working directory'])
prop('C07', 'kMC analysis data that was flushed survives a crash or a disk error intact',
     "If the process is killed at any instant, or a write fails or is cut short, or the engine aborts, every kMC analysis file holds a prefix of what the uninterrupted run would have written, and lacks at most the records of the last incomplete buffer and the write in progress. "
     "An input/output error reaches the caller instead of being swallowed. "
     "A later run in the same directory leaves exactly what it would leave in an empty one.",
     ['crash_points', 'fault_sequences', 'histories'],
     'a crash before, in the middle of or after any file operation, disk-full, I/O errors and short writes at any write, engine aborts at any step, then a rerun',
     'Tests never interrupt a run nor make a write fail.',
     [KP + 'coverages_analysis.py', KP + 'tof_analysis.py', KP + 'frequency_analysis.py', KP + 'event_analysis.py'],
     [('append-only flushes of full buffers', KP), ('header written with truncation in set-up', KP)],
     ['auto_*.py and auto_events.txt after the crash'])
prop('C08', 'The result archive is never torn: after a crash it is the old or the new one',
     "At whatever instant a run is killed or a disk operation fails, the result archive on disk is loadable and is the content of one of the archive updates the run had reached (at least the last one that completed before the failing operation), or does not exist if none had completed. "
     "The next run in that directory starts normally.",
     ['crash_points', 'fault_sequences', 'histories'],
     'crash, torn write, disk full, I/O error at every file operation of a sequence of solves with any set of archived variables',
     'Tests archive once, never interrupt, and never read the file back.',
     ['scaks/__init__.py', MK],
     [('archive update', 'scaks/__init__.py:ModelShell.archive_data'), ('restart', MK + ':run')],
     ['data.pkl after the crash'])
prop('C09', 'The archive equals the results reported, and a restart continues from it',
     "After every successful run the archive holds, for every requested quantity and no other, the value that was reported for that run. "
     "A new process that finds an archive with a converged state and is given no starting coverages starts from that state, accepts it if it already satisfies the tolerance, and reports the same coverages, turnover frequencies and reversibilities as the run that wrote it; otherwise it still reaches a valid steady state.",
     ['histories', 'crash_points', 'configurations'],
     'sequences of solves, crashes and restarts with any subset of archived quantities, tolerances, explicit or parsed energies',
     'No test performs a restart; each builds one model in a clean directory.',
     [MK, 'scaks/__init__.py', S],
     [('restart from archive', MK + ':run'), ('archive calls', S + ':get_steady_state_cvgs')],
     ['data.pkl', 'model.steady_state_coverages, TOFs, reversibilities'])
prop('C10', 'Models living in one process do not influence each other',
     "Any number of models may be built, loaded with data, solved, analysed and discarded in one process in any interleaved order, including from inside each other's callbacks, and every result of each model is what that model gives when it is alone in a fresh process. "
     "Different mechanisms, energies, temperatures, numeric precisions, plugins, and later edits of the set-up data a model was built from do not leak between models.",
     ['histories', 'schedules', 'configurations'],
     'seeded interleavings of the operations of 2..4 models, also nested inside hybrid-guess and analysis callbacks',
     'Tests build one model at a time and compare only that one.',
     ['scaks/descriptors/descriptors.py', M, KM, MK],
     [('memoised rate constants', 'scaks/descriptors/descriptors.py:Memoized'), ('attribute defaults', 'scaks/descriptors/descriptors.py:AttrDescriptor'), ('numeric precision', M + ':__set_numerical_representation')],
     ['rate constants, rates, TOFs, steady-state coverages, error, plugin calls of every model'])
prop('C11', 'Every result uses the energies in force at the time of the call',
     "Whatever was computed before, each rate constant, rate, turnover frequency, residual, steady state and rate-control result of a model belongs to the energies given in that call or, if none are given, to the energies most recently loaded or corrected. "
     "A correction adds to each side of every reaction the free energy of each gas molecule there, at the temperature and pressures of the model. Energies given explicitly, in a call or as data, win over files lying around, and computing a degree of rate control leaves the model's reported state and archive those of the unperturbed system.",
     ['histories', 'inputs'],
     'seeded sequences of data loading, thermodynamic correction, explicit-energy calls, solves, rate-control analysis and queries on one model',
     'Tests call each function once on a freshly built model with one data set.',
     ['scaks/descriptors/descriptors.py', M, S, 'scaks/parsers/relative_energy_parser.py', 'scaks/correctors/thermodynamic_corrector.py'],
     [('memoised rate constants', 'scaks/descriptors/descriptors.py:Memoized'), ('data loading', 'scaks/parsers/relative_energy_parser.py:parse_data'), ('rate control', S + ':get_single_XRC')],
     ['values returned by the solver and reported by the model'])
prop('C12', 'A reported steady state is converged and physical, whatever happened before',
     "If the Newton solver reports steady-state coverages, then the true coverage change rates at these coverages are below the requested tolerance, no coverage is negative and no site is over-occupied, whatever starting guess was given, however many restarts with new guesses were needed, and even if linear solves fail on the way. "
     "The reported error, turnover frequencies, reversibilities and logged coverages belong to exactly those coverages.",
     ['inputs', 'fault_sequences', 'histories'],
     'random mechanisms, energies, tolerances, root finders and guesses (including unphysical ones), singular-matrix failures injected at any linear solve, any sequence of hybrid guesses',
     'Tests solve two fixed systems from a good guess and compare a few digits.',
     [S, 'scaks/solvers/rootfinding_iterators.py', M, MK],
     [('acceptance test', S + ':get_steady_state_cvgs'), ('guess constraint', S + ':__constrain_coverages')],
     ['model.steady_state_coverages, error, TOFs, reversibilities'])
prop('C13', 'Solver analysis plugins see one well-formed session per Newton attempt',
     "For every Newton attempt each registered plugin receives exactly one setup, then one step notification for every continued iteration that is a multiple of its interval with consecutive counters, then exactly one finalize, all carrying the same attempt number, however the attempt ends (success, bad root, iteration limit, failed linear solve, an error raised by a callback). "
     "When a step is notified the solver's current coverages and error are those of that iteration, and plugins belong to the model they were registered on.",
     ['histories', 'fault_sequences'],
     'any sequence of attempts with injected linear-solve failures, iteration limits, bad roots and callback errors; several plugins with different intervals',
     'No test registers a plugin on a solve with restarts or failures.',
     [S, 'scaks/plugins/analysis.py', 'scaks/plugins/metaclasses.py', MK],
     [('plugin calls in the main loop', S + ':get_steady_state_cvgs'), ('registration', MK + ':analysis_register')],
     ['calls received by the plugins'])
prop('C14', 'The ODE trajectory file is the exact recorded trajectory, even if interrupted',
     "With trajectory output requested, the trajectory file contains every output-interval point of the integration once, in order, with the time and coverages the integrator had, and nothing from earlier runs. "
     "If the integration stops early because of an error or interruption, the points recorded until then are in the file and the error is passed on; the returned final time and coverages are the integrator's. "
     "The file is auto_ode_coverages.py in the working directory or, if several ranks of one job integrate, a file of each rank in ./data, and the ranks do not disturb each other.",
     ['histories', 'fault_sequences', 'crash_points'],
     'output intervals, spans and end times; integrator errors, interrupts and write failures at any step; repeated integrations',
     'The tests run one uninterrupted integration and do not read the file.',
     [S], [('flush in loop and in finally', S + ':solve_ode'), ('file layout', S + ':__ode_flush')],
     ['auto_ode_coverages.py', 'return value of the integration'])
prop('C15', 'Once disturbances stop, solving and integrating come to an end',
     "When a solvable, well-conditioned system is given and only finitely many linear solves fail or guesses are bad, solving terminates with a steady state within a bounded number of steps after the last disturbance, and the number of Newton iterations per attempt never exceeds the configured limit by more than one. "
     "A model without a way to make new guesses gives up instead of looping.",
     ['fault_sequences', 'histories'],
     'any finite sequence of injected failures and bad guesses followed by good conditions; both root finders; any iteration limit',
     'A test can only show that one particular run ended.',
     [S, 'scaks/solvers/rootfinding_iterators.py', 'scaks/plugins/hybrid_methods.py'],
     [('iteration limit and restart loop', S + ':get_steady_state_cvgs'), ('step halving', 'scaks/solvers/rootfinding_iterators.py:MDNewton')],
     ['termination within a deterministic step budget'])
prop('C16', 'Loading or correcting data succeeds completely or leaves the model as it was',
     "If reading or checking input data fails at any point - missing, truncated, unreadable or invalid energy, process, configuration or site file - or if a thermodynamic correction cannot be completed, the error is reported and the model keeps giving exactly the results it gave before the attempt. "
     "A later load of good data then succeeds as if the failed attempt had not happened: energies, rate constants, the kMC process table, lattice and sites are those of a new model given the same data. Input files are never changed.",
     ['fault_sequences', 'crash_points', 'inputs'],
     'open and read errors, truncation at any byte and invalid values, at any of the input files, before and after successful loads and corrections, for all three kinds of parser',
     'Tests only load valid files, once.',
     ['scaks/parsers/relative_energy_parser.py', 'scaks/parsers/absolute_energy_parser.py', 'scaks/parsers/kmc_parser.py'],
     [('load, check, then assign', 'scaks/parsers/relative_energy_parser.py:parse_data'), ('input files', 'scaks/parsers/kmc_parser.py:parse_data')],
     ['model energies and flags', 'rate constants', 'process table'])
prop('C17', 'Each log record is written once, to the log of the process that made it',
     "Every message a model emits appears exactly once in the log file of its process and once on its console if its level is allowed there, no matter how many models have been built before in that process, and the output levels most recently set are those in force. "
     "Handlers that the surrounding program installed itself are left alone, and in a parallel job only the master prints progress on the console.",
     ['histories', 'schedules', 'configurations'],
     'sequences of building, solving and re-levelling several models, on 1..4 ranks',
     'Tests never read the log, and each builds further models on the same process-wide logger.',
     [KM, MK], [('handler installation', KM + ':_set_logger'), ('handler levels', KM + ':set_logger_level')],
     ['out.log, log/out_N.log and the console stream'])
prop('C18', 'The kMC event log shows every step once, as it really happened',
     "The event log of a finished kinetic Monte Carlo run lists every analysed step between the first and the last exactly once and in order, with the true number of available sites, total rate and probability of every process after the preceding analysed step and an arrow at the process that was really picked next. "
     "No step is lost or repeated at a buffer boundary and the process list names every process with its reaction and direction.",
     ['histories', 'configurations'],
     'all engine histories of any length around the buffer size, process lists with fast and redistribution processes',
     'Existing kMC tests cannot start without the engine and none of them uses the event log.',
     [KP + 'event_analysis.py'], [('previous table and picked index', KP + 'event_analysis.py:registerStep')],
     ['auto_events.txt'])
prop('C19', 'The kMC engine is given the system described, run after run',
     "Each time a kinetic Monte Carlo simulation is started, the engine receives exactly the system the set-up and the most recently loaded files describe: every process once for each of its basis sites and coordinate groups, forward and - unless it only redistributes - in reverse, with its species, sites and flags and with the rate constant of the energies in force at the model's temperature and gas pressures; the lattice with its size, periodicity, site types and starting occupation, or the occupation its last simulation ended with; and the steps, seed, intervals, limits and redistribution settings. "
     "This holds whatever was loaded, refused, corrected, queried, run or aborted before, for every model in the process and on every rank. The script written along with a run describes that same system, a run that could not write it does not start, and a process that does not fit the system is refused before the engine starts.",
     ['histories', 'inputs', 'faults'],
     'all sequences of loads, refused loads, corrections, queries, runs and aborted runs of several models, all process tables, ranks and script write failures',
     'Existing tests of the processes and the kMC run each build one model, load once and need the engine to run.',
     ['scaks/solvers/kmc_solver.py', 'scaks/parsers/kmc_parser.py', 'scaks/models/kmc_model.py', 'scaks/solvers/solver_base.py'],
     [('process generation', 'scaks/solvers/kmc_solver.py:get_processes, __get_single_process, processes'),
      ('control parameters and script', 'scaks/solvers/kmc_solver.py:get_control_parameters, script_decorator'),
      ('configuration and site map', 'scaks/parsers/kmc_parser.py'),
      ('rate constants', 'scaks/solvers/solver_base.py:get_rxn_rates_TST, get_rxn_rates_CT')],
     ['auto_kmc_model.py'])
prop('C20', 'A time integration follows the kinetics in force',
     'Every time integration - asked for directly or made by the default hybrid method to find a new guess - begins at the requested time with exactly the coverages given (or, if none are given, the Boltzmann coverages of the absolute energies loaded last, or the empty surface without such energies), and at every point the integrator asks for it is given the change rates that mechanism, temperature, pressures and the energies given in that call - otherwise those most recently loaded or corrected - determine there. This holds whatever was loaded, solved or integrated before, after integrations that were aborted by an error, and while other models of the process are integrated at the same time.',
     ['histories', 'schedules', 'faults'], 'all sequences of loads, corrections, solutions and integrations of several models, nested and aborted at any step or rate evaluation, for all algorithms',
     'The tests run one integration of one model and compare the last point with a few digits.',
     [S, 'scaks/solvers/mean_field_solver.py', 'scaks/plugins/hybrid_methods.py'],
     [('function given to the integrator', S + ':solve_ode, steady_state_function'),
      ('start', 'scaks/solvers/mean_field_solver.py:boltzmann_coverages'),
      ('default hybrid method', 'scaks/plugins/hybrid_methods.py:ODE_integration')],
     ['evaluations asked for by scipy.integrate.ode', 'return value of the integration'])
prop('C21', 'Symbolic answers follow the kinetics in force and change nothing',
     'Once symbols were made and energies loaded, every symbolic quantity of a mean-field model - rate and equilibrium constants, rates, net rates, turnover frequencies, coverage change rates and their Jacobian, for any number of adsorbates, gases and liquids - has, at whatever coverages, the value that mechanism, temperature, pressures, concentrations and the free energies most recently loaded or corrected determine; energies given to other calls play no part. '
     'An expression obtained earlier has that value too when it is evaluated later with the substitutions the model then gives. Expressions written as LaTeX are those returned, one line each. '
     'Asking leaves the reported steady state, energies and archived results other than the answer itself as they were, even when the query is aborted, and other models of the process play no part.',
     ['histories', 'inputs', 'faults'], 'all sequences of loads, corrections, solutions, symbol creations and symbolic queries of 1..2 models, some aborted by lack of memory or a full disk',
     'The tests ask one model of two adsorbates once, right after loading.',
     [M, S],
     [('symbols and substitution', M + ':get_data_symbols, get_subs_dict, _get_G_subs_dict, _get_p_subs_dict, _get_c_subs_dict'),
      ('rates and turnover', M + ':get_rates_by_sym, get_net_rates_by_sym, get_tof_by_sym, get_rate_constants_by_sym'),
      ('balance and Jacobian', S + ':get_elementary_dtheta_dt_sym, steady_state_function_by_sym, analytical_jacobian_by_sym'),
      ('LaTeX output', M + ':log_latex, get_latex_strs')],
     ['formulas.tex', 'returned expressions and numbers'])
# -- stated, but outside the technique --------------------------------------
PURE = 'It is a pure function of its input; the existing tests sample a few inputs only.'
def pure(id, title, statement, files, mech):
    prop(id, title, statement, ['inputs'], 'all inputs', PURE, files, mech)
pure('N01', 'Mass, charge and site balance of every accepted reaction',
     'A reaction expression is accepted only if every state of it has the same elements and occupies the same sites.',
     ['scaks/parsers/rxn_parser.py'], [('conservation check', 'scaks/parsers/rxn_parser.py:check_conservation')])
pure('N02', 'Kinetic equations and Jacobian follow from the mechanism',
     'The coverage rate equations are the stoichiometric sum of the mass-action rates of all elementary reactions, and the analytical Jacobian is their derivative.',
     [S], [('expression generation', S)])
pure('N03', 'Rate constants are thermodynamically consistent',
     'Forward and reverse rate constants of a reaction have the ratio given by its free energy change at the model temperature.',
     ['scaks/solvers/solver_base.py'], [('transition state and collision theory', 'scaks/solvers/solver_base.py')])
pure('N04', 'Reaction expressions survive parsing, printing and reversal',
     'Parsing and printing a reaction expression, or reversing it twice, gives the same reaction.',
     ['scaks/parsers/rxn_parser.py'], [('parsing and reversal', 'scaks/parsers/rxn_parser.py')])
pure('N05', 'The total reaction is the null combination of the elementary ones',
     'The reported overall reaction contains no intermediates and is balanced.',
     ['scaks/parsers/parser_base.py'], [('null space', 'scaks/parsers/parser_base.py:get_total_rxn_equation')])
pure('N06', 'Compiled and Python coverage counting agree',
     'The compiled back end for coverage counting returns what the Python one returns.',
     [KP + 'kmc_functions.py', 'c++'], [('two back ends', KP + 'kmc_functions.py')])
pure('N08', 'Invalid set-up values are refused',
     'A model attribute accepts only values of its declared type and choices, and cannot be changed after it was set.',
     ['scaks/descriptors/descriptors.py'], [('descriptor checks', 'scaks/descriptors/descriptors.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
