"""Writes MANIFEST.json and known_findings.json."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOT = ('a pure function of its input: no schedule, time, input/output, history or other party '
       'takes part in it, so there is nothing for a simulator to decide or disturb')
NA = {
    'N01': 'Checking a reaction expression is ' + NOT + '.',
    'N02': 'The rate equations and the Jacobian are ' + NOT + '. (The checks of C11-C13 compare '
           'change rates with an independent reference along the way.)',
    'N03': 'Rate constants from energies are ' + NOT + '. (C10, C11 and C16 compare them with an '
           'independent reference along the way.)',
    'N04': 'Parsing and printing an expression is ' + NOT + '.',
    'N05': 'The total reaction is ' + NOT + '.',
    'N06': 'Coverage counting is ' + NOT + '. (The compiled back end is looked for under a name it '
           'is not installed by, so that only the Python one is ever used.)',
    'N08': 'Checking a set-up value is ' + NOT + '.',
}
NOTE = {
    'C01': 'seeded interleavings of 1..13 ranks at every file, MPI and directory operation',
    'C02': 'seeded interleavings of 1..16 ranks; arguments and lengths 0..40 drawn at random',
    'C03': 'seeded event histories of the engine, frequency output against the recorded history',
    'C04': 'seeded event histories of the engine, coverage output against the recorded history',
    'C05': 'seeded event histories of the engine, turnover output against the recorded history',
    'C06': 'seeded interleavings of 2..6 ranks of one kMC run against the one-rank run',
    'C07': 'a crash, disk error or engine abort at a random operation, then a rerun',
    'C08': 'a crash or disk error at any file operation of the archive, then a restart',
    'C09': 'chains of processes in one directory with crashes and restarts',
    'C10': 'seeded interleavings of 2..4 models in one process against each model alone',
    'C11': 'seeded operation sequences on one model against an independent reference',
    'C12': 'seeded systems, guesses and failing linear solves against an independent reference',
    'C13': 'seeded attempts, failures and callback errors against a session state machine',
    'C14': 'interruptions, write failures and kills at any step on 1..4 ranks against the recorded '
           'integration',
    'C15': 'finitely many seeded disturbances, then progress within a deterministic step budget',
    'C16': 'invalid, truncated and unreadable input, disk errors and crashes while loading',
    'C17': 'seeded histories of models and levels on 1..4 ranks against the emitted records',
    'C18': 'seeded event histories of the engine, event log against the recorded history',
    'C19': 'seeded histories of loads, refusals, queries, runs and aborts of 1..3 kMC models on '
           '1..3 ranks, engine input against the description',
    'C20': 'seeded histories of 1..2 models with nested and aborted integrations, every evaluation '
           'against an independent reference',
    'C21': 'seeded histories of symbolic queries of 1..2 models, aborted by lack of memory or a '
           'full disk, against an independent reference',
}
FIX = {     # commit subject -> (properties, what failed)
    'auto_coverages.py is not valid Python (element types quoted twice)': 'C04',
    'kMC frequency data lost if the statistics window has no duration': 'C03',
    'every rank truncates auto_frequency.py and auto_tofs.py, not only the master': 'C06',
    'first instantaneous TOF window starts at 0.0 instead of the start time': 'C05',
    'process mapping lists a reverse process that a redistribution process has not': 'C03',
    'process mapping grows each time the processes are generated': 'C03',
    'event analysis divides by zero when no process is possible any more': 'C18',
    'auto_coverages.py raises IndexError if the last buffer was just flushed': 'C04',
    'ranks open their log files before the master has created ./log': 'C01',
    'ranks wait for ever or find no ./data depending on when it is created': 'C01',
    'split_seq loses elements of or rejects sequences not divisible by the process number': 'C02',
    'log records are written once per model created so far': 'C17',
    'memoized results are shared between models and survive loading new energies': 'C11',
    'mutable default attributes (e.g. registered plugins) are shared between models': 'C10',
    'later changes of the set-up data change models built from it': 'C10',
    'a model calculates with the precision of whichever model was built last': 'C10',
    'a file in the working directory overrides energy data given explicitly': 'C11',
    'ConstrainedNewton cannot use the step sizes that scipy tries': 'C12',
    'a failed linear solve in ConstrainedNewton ends the solution instead of the attempt': 'C12',
    'rate control leaves the solver and the archive at the perturbed state': 'C11',
    'ConstrainedNewton gives scipy values it cannot compare': 'C12',
    'run without starting coverages fails when there is no archive yet': 'C09',
    'restart never finds the archived coverages and integrates without the given energies': 'C09',
    'archive is lost if the program stops while updating it': 'C08',
    'error of a good initial guess ignores the given energies': 'C09',
    'run with fsolve has no error to report and archives no coverages': 'C09',
    'a Jacobian with a column of zeros ends the solution instead of the attempt': 'C12',
    'steady states with more adsorbates than sites are accepted': 'C12',
    'new initial guesses may be unphysical': 'C12',
    'wrong sign in the Jacobian for terms with an adsorbate and its free site': 'C15',
    'change rates are wrong for an adsorbate on both sides or listed twice': 'C12',
    'plugins are finalized without set-up or with the number of the next attempt': 'C13',
    'analysis plugins lose the methods they inherit': 'C13',
    'ODE integration never ends once the integrator cannot advance': 'C15',
    'hybrid ODE integration ignores the energies of the call': 'C15',
    'roots with rounding errors below zero are rejected for ever': 'C15',
    'a failed load of energies or kMC input leaves half of the new data': 'C16',
    'a failed correction leaves half of the energies corrected': 'C16',
    'kMC processes are not updated when other data is loaded': 'C16',
    'rates of steps with several molecules of one gas use its pressure to that power': 'C19',
    'entropy correction warns about a high rotation temperature with its own logger': 'C11',
    'correct every molecule of a gas in a step, not one or none': 'C11',
    'the default hybrid method integrates from physical coverages': 'C15',
    'symbolic rates cannot be evaluated for a mechanism with liquids': 'C21',
    'symbolic Jacobian exists for two adsorbates only': 'C21',
    'change rate expressions cannot be written as LaTeX': 'C21',
    'every rank of a parallel job writes its own ODE trajectory': 'C14',
    'a plugin that fails in set-up or finalization upsets the sessions of the others': 'C13',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    ids = [p['id'] for p in props]
    checks = [{'property': i, 'quick_cmd': './run_check.py %s --tier quick' % i,
               'thorough_cmd': './run_check.py %s --tier thorough' % i,
               'technique': 'deterministic simulation with fault injection: ' + NOTE[i],
               'level': 'exploration',
               'level_note': 'Seeded search over simulated runs of the real code; nothing is '
                             'enumerated or proved. Bounds, stubs and assumptions: DESIGN.md.'}
              for i in ids if i.startswith('C')]
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA],
           'notes': 'No hooks were needed in /repo: Python lets the simulator replace modules '
                    'and file, clock, MPI and solver entry points from outside. All commits in '
                    '/repo are repairs (fix:), listed in known_findings.json.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse',
                                   '--format=%h %s'], text=True)
    fixed = []
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if s.startswith('fix: '):
            fixed.append('fixed: property=%s %s %s' % (FIX[s[5:]], h, s[5:]))
    known = os.path.join(HERE, 'known_findings.json')
    old = json.load(open(known)) if os.path.exists(known) else {'findings': []}
    with open(known, 'w') as f:
        json.dump({'findings': old['findings'], 'fixed': fixed}, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(fixed), 'repairs')


if __name__ == '__main__':
    main()
