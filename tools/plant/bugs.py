MKMF='scaks/models/micro_kinetic_model.py'; KM='scaks/models/kinetic_model.py'
KS='scaks/solvers/kmc_solver.py'; MF='scaks/solvers/mean_field_solver.py'
SS='scaks/solvers/steady_state_solver.py'; P='scaks/solvers/kmc_plugins/'
RF='scaks/solvers/rootfinding_iterators.py'; MPI='scaks/mpicommons.py'
D='scaks/descriptors/descriptors.py'; KP='scaks/parsers/kmc_parser.py'
BUGS=[]
def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

# ---------------------------------------------------------------------- C01
bug('c01-log-name-wraps', 'C01', [(KM, 'filename = "./log/out_{}.log".format(mpi.rank)',
 'filename = "./log/out_{}.log".format(mpi.rank % 4)')], '''
from common import *
import glob
def rank(r):
    m = mkm()
    m.logger.error('hello of rank %d', r)
check(ranks(5, rank), 'a rank failed')
for r in range(5):
    t = open('log/out_%d.log' % r).read() if os.path.exists('log/out_%d.log' % r) else ''
    got = [q for q in range(5) if 'hello of rank %d' % q in t]
    check(got == [r], 'log of rank %d has the records of ranks %s' % (r, got))
''', 'at least five ranks in one job', 'two ranks write their records into the same log file')

bug('c01-result-file-master-name', 'C01', [(MKMF, '''        if mpi.size == 1:
            return "data.pkl"''', '''        if mpi.is_master:
            return "data.pkl"''')], '''
from common import *
def rank(r):
    m = mkm()
    m.run(init_cvgs=[0.1, 0.1])
check(ranks(2, rank), 'a rank failed')
check(os.path.exists('data/data_0.pkl') and os.path.exists('data/data_1.pkl'),
      'results of rank 0 are not in its own file')
check(not os.path.exists('data.pkl'), 'a parallel job wrote the file of serial runs')
''', 'a parallel job; a serial result in the same directory is then overwritten and used',
 'the master of a parallel job uses the result file of serial runs')

# ---------------------------------------------------------------------- C02
bug('c02-merge-empty-part', 'C02', [(MPI, '''        if self.size == 1:
            return seq

        mpi_comm''', '''        if self.size == 1 or not len(seq):
            return seq

        mpi_comm''')], '''
from common import *
def rank(r):
    from scaks.mpicommons import mpi
    data = list(range(2))
    part = [10*i for i in mpi.split_seq(data)]
    got = mpi.merge_seq(part)
    check(got == [0, 10], 'rank %d has merged %s' % (r, got))
check(ranks(3, rank), 'a rank waits for ever or has another result')
''', 'a sequence with fewer elements than ranks', 'ranks with an empty part do not take part in merging')

bug('c02-split-size-remainder', 'C02', [(MPI, '''            for i in range(residual):
                splited_sizes[i] += 1''', '''            # Spread the remainder.
            for i in range(residual):
                splited_sizes[2*i % self.size] += 1''')], '''
from common import *
sizes = {}
def rank(r):
    from scaks.mpicommons import mpi
    for total in range(0, 40):
        s = mpi.merge_seq([mpi.split_size(total)])
        check(sum(s) == total and max(s) - min(s) <= 1, '%s for %d' % (s, total))
for n in (1, 2, 3, 4, 5):
    check(ranks(n, rank), 'sizes of %d ranks' % n)
''', 'numbers of ranks and sizes with particular remainders', 'part sizes differ by two')

# ---------------------------------------------------------------------- C03
bug('c03-window-starts-at-zero', 'C03', [(P+'frequency_analysis.py',
 '''            if not self.__tof_start_time:
                self.__tof_start_time = time''',
 '''            if self.__tof_start_time < self.__kmc_model.start_time or not self.__steps:
                self.__tof_start_time = max(time, self.__kmc_model.start_time)
                self.__steps.append(step)'''),
 (P+'frequency_analysis.py', '''        self.__tof_end_time = time
''', '''        if self.__tof_end_time <= time:
            self.__tof_end_time = time
        self.__steps = self.__steps if time < 1e4 else []
''')], '''
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.frequency_analysis import FrequencyAnalysis
m = KModel(start_time=0.0, tof_start=2)
p = FrequencyAnalysis(m)
p.setup(0, 0.0, None, None)
times = [1.0, 5000.0, 9000.0, 10000.0, 12000.0]
for i, t in enumerate(times):
    p.registerStep(i + 1, t, None, Interactions(i % 2))
p.finalize()
d = load('auto_frequency.py')
check(d['process_occurencies'] == [3, 2], 'counts')
want = 2/((12000.0 - 5000.0)*4)
check(abs(d['reaction_rates']['r1(->)'] - want) < 1e-12, 'rate %r, not %r' % (d['reaction_rates'], want))
''', 'a simulation that reaches a time of 10^4 with frequency analysis',
 'the statistics window begins again and again, so that the rates are too large')

bug('c03-sites-of-first-basis', 'C03', [(P+'frequency_analysis.py',
 "        nsites = reduce(mul, repetitions)*len(basis_sites)",
 "        nsites = reduce(mul, repetitions[:len(basis_sites) + 1])*len(basis_sites)")], '''
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.frequency_analysis import FrequencyAnalysis
m = KModel(repetitions=(2, 3, 2))
p = FrequencyAnalysis(m)
p.setup(0, 0.0, None, None)
for i in range(4):
    p.registerStep(i + 1, 1.0 + i, None, Interactions(0))
p.finalize()
r = load('auto_frequency.py')['reaction_rates']['r1(->)']
check(abs(r - 4/(3.0*12)) < 1e-12, 'rate per site is %r' % r)
''', 'a lattice with one basis site, repeated in the third direction as well',
 'rates per site are those of a single layer')

# ---------------------------------------------------------------------- C04
bug('c04-ratio-order', 'C04', [(P+'kmc_functions.py', '    all_ratios = coverage_ratios*nsite\n',
 '    all_ratios = [ratio for ratio in coverage_ratios for _ in range(nsite)]\n')], '''
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.coverages_analysis import CoveragesAnalysis
m = KModel(coverage_ratios=[0.5, 0.25, 0.25], repetitions=(2, 1, 1))
p = CoveragesAnalysis(m)
p.setup(0, 0.0, Configuration(['A', 'V', 'V', 'V', 'V', 'A']), None)
p.finalize()
c = load('auto_coverages.py')['coverages']
check(abs(c[1][0] - (0.5 + 0.25)/2) < 1e-12, 'coverage of A is %r' % c[1][0])
m = KModel(coverage_ratios=[0.5, 0.25, 0.25], repetitions=(2, 1, 1))
p = CoveragesAnalysis(m)
p.setup(0, 0.0, Configuration(['V', 'A', 'V', 'V', 'V', 'V']), None)
p.finalize()
c = load('auto_coverages.py')['coverages']
check(abs(c[1][0] - 0.125) < 1e-12, 'coverage of A is %r' % c[1][0])
''', 'several basis sites with different coverage ratios and species on them unevenly',
 'coverages are weighted with the ratio of another basis site')

bug('c04-buffer-keeps-last', 'C04', [(P+'coverages_analysis.py',
 '''        # Free buffers.
        self.__coverages = []
        self.__steps = []
        self.__times = []
''', '''        # Free buffers.
        del self.__coverages[:self.__buffer_size]
        del self.__steps[:self.__buffer_size]
        del self.__times[:self.__buffer_size]
'''), (P+'coverages_analysis.py', '        buffer_full = len(self.__coverages) >= self.__buffer_size\n',
 '        buffer_full = len(self.__coverages) > self.__buffer_size\n')], '''
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.coverages_analysis import CoveragesAnalysis
for n in (3, 499, 500, 501, 999, 1000, 1003):
    p = CoveragesAnalysis(KModel())
    c = Configuration(['A', 'V', 'V', 'V'])
    p.setup(0, 0.0, c, None)
    for i in range(1, n + 1):
        p.registerStep(i, 0.5*i, c, None)
    p.finalize()
    check(load('auto_coverages.py')['steps'] == list(range(n + 1)), 'steps of a run of %d' % n)
''', 'a run longer than the buffer (500 records)', 'records at the buffer boundary are written twice')

# ---------------------------------------------------------------------- C05
bug('c05-window-grid', 'C05', [(P+'tof_analysis.py', '''            # Refresh.
            self.__start_time = time
''', '''            # Refresh.
            self.__start_time += self.__tof_interval*int(delta_t/self.__tof_interval)
''')], '''
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.tof_analysis import TOFAnalysis
p = TOFAnalysis(KModel(tof_interval=1.0))
p.setup(0, 0.0, None, None)
for i, t in enumerate([0.4, 1.3, 1.9, 2.6, 3.1, 3.5]):
    p.registerStep(i + 1, t, None, Interactions(0))
p.finalize()
d = load('auto_tofs.py')
check(d['times'] == [0.0, 1.3], 'windows start at %r' % d['times'])
ends = [1.3, 2.6]
n = [round(v[0]*4*(e - s)) for v, s, e in zip(d['tofs'], d['times'], ends)]
check(n == [2, 2], 'events %r' % n)
''', 'windows that close at a step somewhat later than the interval asks for (usual kMC times)',
 'the next window starts before the step that closed the one before')

bug('c05-single-window', 'C05', [(P+'tof_analysis.py', '        if mpi.is_master and (len(self.__times) > 0):\n',
 '        if mpi.is_master and (len(self.__times) > 1 or not self.__flush_counter):\n')], '''
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.tof_analysis import TOFAnalysis
for n in (0, 1, 3, 499, 500, 501, 502):
    p = TOFAnalysis(KModel(tof_interval=1.0))
    p.setup(0, 0.0, None, None)
    for i in range(n):
        p.registerStep(i + 1, 2.0*(i + 1), None, Interactions(0))
    p.finalize()
    d = load('auto_tofs.py')
    check(d['times'] == [2.0*i for i in range(n)], '%d of %d windows' % (len(d['times']), n))
''', 'exactly one window left in the buffer when the run ends (501 windows, say)',
 'the last window is lost')

# ---------------------------------------------------------------------- C06
bug('c06-event-file-every-rank', 'C06', [(P+'event_analysis.py', '''        if mpi.is_master:
            with open(self.__filename, "w") as f:
                content = header + processes_str + "\\n"
                f.write(content)
''', '''        with open(self.__filename, "w") as f:
            if mpi.is_master:
                content = header + processes_str + "\\n"
                f.write(content)
''')], '''
from common import *
def rank(r):
    stub_kmclib()
    from scaks.mpicommons import mpi
    from scaks.solvers.kmc_plugins.event_analysis import EventAnalysis
    p = EventAnalysis(KModel())
    def run():
        p.setup(0, 0.0, None, None)
        for i in range(3):
            p.registerStep(i + 1, 1.0 + i, None, Interactions(0, [1, 1], [1.0, 1.0]))
        p.finalize()
    if r == 1:
        mpi.barrier()
    run()
    if r == 0:
        mpi.barrier()
check(ranks(1, lambda r: None), 'nothing')
check(ranks(2, rank), 'a rank failed')
t = open('auto_events.txt').read()
check(t.count('Step: ') == 2 and 'processes listed' in t, 'file of the serial run is not left')
''', 'several ranks, one of them later than the master', 'a late rank empties the event log of the master')

# ---------------------------------------------------------------------- C07
bug('c07-swallow-write-error', 'C07', [(P+'tof_analysis.py', '''        with open(self.__filename, "a") as f:
            f.write(content)

        # Free buffers.
        self.__times = []
''', '''        try:
            with open(self.__filename, "a") as f:
                f.write(content)
        except IOError as e:
            self.__logger.error("can not write {}: {}".format(self.__filename, e))

        # Free buffers.
        self.__times = []
''')], '''
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.tof_analysis import TOFAnalysis
os.mkdir('d')
p = TOFAnalysis(KModel(tof_interval=1.0), filename='d/tofs.py', buffer_size=3)
p.setup(0, 0.0, None, None)
os.rename('d', 'e')
try:
    for i in range(6):
        p.registerStep(i + 1, 2.0*(i + 1), None, Interactions(0))
    p.finalize()
except (IOError, OSError):
    pass
else:
    check(False, 'data could not be written and nobody is told')
''', 'a disk error while a full buffer is written', 'the error is swallowed and the records are lost')

bug('c07-event-buffer-flushed-once', 'C07', [(P+'event_analysis.py',
 '        if mpi.is_master and self.__flush_counter >= self.__buffer_size:\n',
 '        if mpi.is_master and self.__flush_counter == self.__buffer_size:\n'),
 (P+'event_analysis.py', '''        self.__buffer = ""
        self.__flush_counter = 0
    # }}}''', '''        self.__buffer = ""
    # }}}''')], '''
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.event_analysis import EventAnalysis
p = EventAnalysis(KModel(), buffer_size=5)
p.setup(0, 0.0, None, None)
for i in range(24):
    p.registerStep(i + 1, 1.0 + i, None, Interactions(0, [1, 1], [1.0, 1.0]))
# the process is killed here
n = open('auto_events.txt').read().count('Step: ')
check(n >= 20, 'only %d of 23 steps survive a crash' % n)
p.finalize()
check(open('auto_events.txt').read().count('Step: ') == 23, 'complete')
''', 'a crash after the second buffer length', 'only the first buffer is ever written before the end')

bug('c08-corrupt-on-error', 'C08', [('scaks/__init__.py', '''                    pickle.dump(self._archived_data_dict, f)
''', '''                    for pair in sorted(self._archived_data_dict.items()):
                        if not f.tell():
                            pickle.dump(dict(self._archived_data_dict), f)
                    f.flush()
                if len(self._archived_data_dict) > 3:
                    os.remove(data_file)
''')], '''
from common import *
import scaks
m = mkm(archived_variables=['steady_state_coverages', 'steady_state_error', 'initial_guess',
                            'rates', 'net_rates', 'reversibilities', 'tofs'])
m.run(init_cvgs=[0.1, 0.1])
pid = os.fork()
if pid == 0:
    real = os.replace
    os.replace = lambda *a: os._exit(0)      # killed right before the new archive takes over
    m.run(init_cvgs=[0.2, 0.1])
os.waitpid(pid, 0)
check(os.path.exists('data.pkl'), 'no archive after a crash')
''', 'more than three archived quantities and a crash between two file operations of an update',
 'neither the old nor the new archive exists')

# ---------------------------------------------------------------------- C09
bug('c09-net-rates-of-floats', 'C09', [(MF, '''        # Archive.
        self.archive_data('net_rates', net_rates)

        return net_rates
''', '''        # Archive.
        self.archive_data('net_rates', tuple([float(r) for r in net_rates]))

        return net_rates
''')], '''
from common import *
import pickle
m = mkm(archived_variables=['net_rates'])
got = []
real = m.solver.get_net_rates
def net(*a, **k):
    got.append(real(*a, **k))
    return got[-1]
m.solver.get_net_rates = net
m.run(init_cvgs=[0.1, 0.1])
a = pickle.load(open('data.pkl', 'rb'))['net_rates']
check(tuple(a) == tuple(got[-1]), 'archived net rates differ from the reported ones')
''', 'net rates among the archived quantities (not the default), compared beyond double precision',
 'the archive holds rounded values')

bug('c09-restart-polishes', 'C09', [(MKMF, '''                init_cvgs = data[init_guess]
                coarse_guess = False
''', '''                init_cvgs = data[init_guess]
                coarse_guess = not data.get('steady_state_error', 1.0) <= self.tolerance
''')], '''
from common import *
m = mkm()
m.run(init_cvgs=[0.1, 0.1])
n = mkm()
n.run()
check(tuple(n.steady_state_coverages) == tuple(m.steady_state_coverages),
      'the restart does not report the archived state')
check(list(n.TOFs) == list(m.TOFs), 'other turnover frequencies')
''', 'an archive without the error (the default), then a restart',
 'a restart changes the converged state with the low-precision solver first')

# ---------------------------------------------------------------------- C10
bug('c10-hybrid-method-of-class', 'C10', [(MKMF, '        self.hybrid_method = _hybrid_method\n',
 '        type(self).hybrid_method = staticmethod(_hybrid_method)\n')], '''
from common import *
a = mkm()
def run():
    b = mkm()
    b.run()
    return tuple(b.steady_state_coverages)
alone = run()
os.remove('data.pkl')
@a.hybrid_method_register
def guess(model, n):
    check(model is a, 'the hybrid method of another model is used')
    return (0.3, 0.3)
check(run() == alone, 'result depends on another model')
''', 'two models, one with a hybrid method of its own and another one that asks for a guess',
 'a registered hybrid method is used by every other model of the process')

# ---------------------------------------------------------------------- C11
bug('c11-tof-of-loaded-energies', 'C11', [(MKMF, '''        self.__tofs = solver.get_tof(cvgs=self.__ss_cvgs,
                                     relative_energies=relative_energies)
''', '''        self.__tofs = solver.get_tof(cvgs=self.__ss_cvgs,
                                     relative_energies=self.relative_energies)
''')], '''
from common import *
m = mkm()
m.run(init_cvgs=[0.1, 0.1])
e = {k: list(v) for k, v in m.relative_energies.items()}
e['Gaf'][2] += 0.05
e['Gar'][2] += 0.05
m.run(init_cvgs=[0.1, 0.1], relative_energies=e)
t = [float(x) for x in m.TOFs]
n = mkm(ga=[0.0, 0.0, 0.6])
n.run(init_cvgs=[0.1, 0.1])
check(all(abs(a/float(b) - 1) < 1e-6 for a, b in zip(t, n.TOFs)), 'turnover frequencies %r' % t)
''', 'a run with energies given in the call that differ from the loaded ones',
 'turnover frequencies mix the coverages of one set of energies with the rates of another')

# ---------------------------------------------------------------------- C12
bug('c12-negative-check-last-only', 'C12', [(SS, '''                                if cvg < 0.0:
                                    lt_zero = True  # less than 0
                                    break
                                else:
''', '''                                if cvg < 0.0:
                                    lt_zero = True  # less than 0
                                else:
''')], '''
from common import *
bad = 0
for c0 in [(0.5, 0.9), (0.9, 0.05), (0.02, 0.02), (0.0, 1.0), (1.0, 0.0), (0.3, 0.3), (0.05, 0.94)]:
    for root in ('MDNewton',):
        for ga, dg in ((GA, DG), ([0.0, 0.0, 0.4], [-0.3, -0.5, -0.9]), ([0.0, 0.0, 0.6], [0.1, -0.1, -0.6])):
            m = mkm(ga=ga, dg=dg, rootfinding=root, max_rootfinding_iterations=60)
            n = []
            def guess(model, k):
                n.append(k)
                if len(n) > 4:
                    raise RuntimeError('enough')
                return (0.1*len(n), 0.1)
            m.hybrid_method_register(guess)
            try:
                c = m.solver.get_steady_state_cvgs(c0=c0)
            except RuntimeError:
                continue
            if c is not None:
                v = list(m.solver._cvg_tuple2dict(c).values())
                check(min(v) >= 0, 'coverages %s' % [float(x) for x in v])
''', 'a Newton attempt that ends in an unphysical root', 'negative coverages are reported as steady state')

# ---------------------------------------------------------------------- C13
bug('c13-step-before-state', 'C13', [(SS, '''                    old_error = error  # set old error to be compared in next loop
                    self._coverages = x
                    self._error = error

                    # On-the-fly analysis plugins
                    for ap in self._owner.analysis:
                        if nt_counter % ap.interval == 0:
''', '''                    old_error = error  # set old error to be compared in next loop
                    if nt_counter % self._owner.analysis[0].interval == 0 if self._owner.analysis else True:
                        self._coverages = x
                        self._error = error

                    # On-the-fly analysis plugins
                    for ap in self._owner.analysis:
                        if nt_counter % ap.interval == 0:
''')], '''
from common import *
from scaks.plugins.analysis import OnTheFlyAnalysis
seen = []
m = mkm()
class A(OnTheFlyAnalysis):
    interval = 3
class B(OnTheFlyAnalysis):
    interval = 1
    def register_step(self, model, inner, outer):
        seen.append(tuple(model.solver.coverages))
m.analysis_register(A)
m.analysis_register(B)
m.solver.get_steady_state_cvgs(c0=(0.5, 0.4))
check(len(seen) > 2 and len(set(seen)) == len(seen), 'coverages of an earlier iteration are shown')
''', 'two plugins with different intervals on one model', 'a plugin sees the coverages of an earlier iteration')

# ---------------------------------------------------------------------- C14
bug('c14-left-points-only-on-success', 'C14', [(SS, '''                # Flush time coverages to file.
                if traj_output and output_allowed:
''', '''                # Flush time coverages to file.
                if traj_output and len(ts) >= min(self._owner.ode_buffer_size, 20):
'''), (SS, '''            # Flush all data left.
            if traj_output:
                self.__ode_flush(flush_counter, ts, ys)
''', '''            # Flush all data left.
            if traj_output and not r.t < t_end:
                self.__ode_flush(flush_counter, ts, ys)
''')], '''
from common import *
m = mkm(ode_output_interval=2)
n = []
real = m.solver.steady_state_function
stop = [10**9]
def f(*a, **k):
    n.append(1)
    if len(n) > stop[0]:
        raise KeyboardInterrupt()
    return real(*a, **k)
m.solver.steady_state_function = f
m.solver.solve_ode(time_end=1e-6, time_span=1e-8, initial_cvgs=(0.1, 0.1), traj_output=True)
full = load('auto_ode_coverages.py')
check(len(full['times']) >= 49 and len(full['coverages']) == len(full['times']), 'complete trajectory')
total = len(n)
del n[:]
stop[0] = total - 5
import itertools
try:
    m.solver.solve_ode(time_end=1e-6, time_span=1e-8, initial_cvgs=(0.1, 0.1), traj_output=True)
    err = False
except BaseException:
    err = True
check(err, 'not passed on')
part = load('auto_ode_coverages.py')
check(len(part['times']) % 20 != 0 or len(part['times']) in (40,) and False or len(part['times']) > 40,
      'points recorded before the interruption are lost: %d' % len(part['times']))
''', 'an integration that is interrupted between two flushes', 'recorded points are not in the file')

bug('c14-second-run-appends', 'C14', [(SS, '''                flush_counter = 0
                with open("auto_ode_coverages.py", "w") as f:
                    time_str = "times = []\\n\\n"
                    coverages_str = "coverages = []\\n\\n"
                    f.write(file_header + time_str + coverages_str)
''', '''                flush_counter = 0
                with open("auto_ode_coverages.py", "a") as f:
                    time_str = "times = []\\n\\n"
                    coverages_str = "coverages = []\\n\\n"
                    if t_start <= 0.0:
                        f.truncate(0)
                    f.write(file_header + time_str + coverages_str if f.tell() == 0 or
                            t_start <= 0.0 else "\\n")
''')], '''
from common import *
m = mkm(ode_output_interval=1)
s = m.solver
s.solve_ode(time_end=1e-7, time_span=1e-8, initial_cvgs=(0.1, 0.1), traj_output=True)
s.solve_ode(time_start=1.0, time_end=1.0 + 1e-2, time_span=2e-3, initial_cvgs=(0.2, 0.1), traj_output=True)
t = load('auto_ode_coverages.py')['times']
check(t and min(t) > 1.0, 'points of an earlier integration are in the file')
''', 'a second integration in the same directory that does not start at time zero',
 'the file holds points of an earlier run')

# ---------------------------------------------------------------------- C15
bug('c15-gives-up-never', 'C15', [(SS, '''            except ZeroDivisionError:
                self.__logger.warning("ZeroDivisionError is catched !")
                #c0 = self.modify_init_guess()
                if not self._owner.hybrid_method:
                    msg = 'No hybrid method registered for hybrid iteration'
                    self.__logger.warning(msg)
                    break
''', '''            except ZeroDivisionError:
                self.__logger.warning("ZeroDivisionError is catched !")
                #c0 = self.modify_init_guess()
                if not self._owner.hybrid_method:
                    msg = 'No hybrid method registered for hybrid iteration'
                    self.__logger.warning(msg)
                    continue
''')], '''
from common import *
import signal
import mpmath as mp
m = mkm()
m.hybrid_method = None
real = mp.lu_solve
def singular(*a, **k):
    raise ZeroDivisionError('matrix is numerically singular')
mp.lu_solve = singular
signal.signal(signal.SIGALRM, lambda *a: check(False, 'solving does not come to an end'))
signal.alarm(20)
check(m.solver.get_steady_state_cvgs(c0=(0.5, 0.2)) is None, 'a result')
''', 'a singular matrix in a model without a hybrid method', 'solving loops for ever')

# ---------------------------------------------------------------------- C16
bug('c16-too-many-energies', 'C16', [('scaks/parsers/relative_energy_parser.py',
 '            if len(data_dict["Ga"]) != len(self._owner.rxn_expressions):\n',
 '            if len(data_dict["Ga"]) < len(self._owner.rxn_expressions):\n')], '''
from common import *
m = mkm()
try:
    m.parser.parse_data(energy_data={'Ga': [0.0, 0.0, 0.5, 0.6], 'dG': [-0.1, -0.1, -0.1]})
except ValueError:
    pass
else:
    check(False, 'energies of another mechanism are accepted')
''', 'data with more barriers than reactions', 'invalid data is loaded silently')

# ---------------------------------------------------------------------- C17
bug('c17-level-of-first-model', 'C17', [(KM, '''        logger = logging.getLogger('model')
        logger.setLevel(self.logger_level)
''', '''        logger = logging.getLogger('model')
        if logger.level == logging.NOTSET:
            logger.setLevel(self.logger_level)
''')], '''
from common import *
a = mkm(logger_level=logging.ERROR)
b = mkm(logger_level=logging.INFO)
b.logger.info('here I am')
check('here I am' in open('out.log').read(), 'record is missing in the log')
''', 'a second model with another level in the same process', 'the level of the first model stays in force')

# ---------------------------------------------------------------------- C18
bug('c18-probability-of-picked', 'C18', [(P+'event_analysis.py',
 "        total_rates = [n*r for n, r in zip(process_available_sites, process_rates)]\n",
 "        total_rates = [max(n, 1)*r if i == picked_index else n*r\n"
 "                       for i, (n, r) in enumerate(zip(process_available_sites, process_rates))]\n")], '''
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.event_analysis import EventAnalysis
p = EventAnalysis(KModel())
p.setup(0, 0.0, None, None)
p.registerStep(1, 1.0, None, Interactions(0, [0, 2], [1.0, 1.0]))
p.registerStep(2, 2.0, None, Interactions(1, [1, 1], [1.0, 1.0]))
p.finalize()
t = open('auto_events.txt').read()
check('100.00%' in t and '0.00e+00' in t.replace(' ', ''), 'rates: ' + t[-600:])
''', 'a step after which the process that was picked is possible nowhere any more',
 'a rate and probabilities are shown for a process that is not possible')

bug('c08-archive-consumed', 'C08', [(MKMF, """            with open(self.data_file, 'rb') as f:
                data = pickle.load(f)
""", """            # Results of this run must not be mixed with old ones.
            old_file = self.data_file + '.old'
            os.rename(self.data_file, old_file)
            with open(old_file, 'rb') as f:
                data = pickle.load(f)
""")], """
from common import *
m = mkm()
m.run(init_cvgs=[0.1, 0.1])
check(os.path.exists('data.pkl'), 'archive')
pid = os.fork()
if pid == 0:
    m = mkm()
    def kill(*a, **k):
        os._exit(0)         # the process is killed while it solves
    m.solver.get_steady_state_cvgs = kill
    m.run()
os.waitpid(pid, 0)
check(os.path.exists('data.pkl'), 'the archive of a completed run is lost by a crash')
""", 'a restart that is killed before its first archive update', 'the archive of the last completed run is lost')

bug('c10-shared-plugin', 'C10', [(MKMF, """        analysis = analysis_cls()
        self.analysis.append(analysis)
""", """        if '_instance' not in vars(analysis_cls):
            analysis_cls._instance = analysis_cls()
        self.analysis.append(analysis_cls._instance)
""")], """
from common import *
from scaks.plugins.analysis import OnTheFlyAnalysis
class Count(OnTheFlyAnalysis):
    def __init__(self):
        self.n = 0
    def register_step(self, model, inner, outer):
        self.n += 1
a, b = mkm(), mkm()
a.analysis_register(Count)
b.analysis_register(Count)
a.solver.get_steady_state_cvgs(c0=(0.5, 0.4))
check(a.analysis[0].n > 0 and b.analysis[0].n == 0, 'the plugin of one model sees the steps of another')
""", 'one plugin class registered on two models', 'the models share the plugin and its data')

bug('c11-memo-rounds', 'C11', [(D, """    else:
        return var


class Memoized""", """    else:
        # The same number for tiny rounding differences.
        return round(var, 6) if isinstance(var, float) else var


class Memoized""")], """
from common import *
m = mkm()
e = {k: list(v) for k, v in m.relative_energies.items()}
k0 = m.solver.get_rate_constants(relative_energies=e)[0][2]
e['Gaf'][2] += 2e-7
k1 = m.solver.get_rate_constants(relative_energies=e)[0][2]
check(abs(float((k1 - k0)/k0) + 2e-7/(8.617e-5*500)) < 1e-8, 'rate constant does not follow the energies')
""", 'two calls with energies that differ by less than a micro-eV (rate control with a small perturbation)',
 'rate constants of the earlier energies are used')

bug('c12-stale-error', 'C12', [(SS, """                    error = min(norm, resid)
                    self._error = error
""", """                    error = min(norm, resid)
                    self._error = getattr(self, '_error', error)
""")], """
from common import *
m = mkm(tolerance=1e-8)
s = m.solver
c = s.get_steady_state_cvgs(c0=(0.1, 0.1))
m2 = mkm(tolerance=1e-30)
good = m2.solver.get_steady_state_cvgs(c0=c)
s.get_steady_state_cvgs(c0=good)
e = float(s.get_residual(s.coverages))
check(float(s.error) <= 2*e + 1e-45, 'error %e reported, the residual is %e' % (float(s.error), e))
""", 'a solve that starts from a converged state after another solve on the same model',
 'the error reported is that of an earlier result')

bug('c12-free-site-ignored', 'C12', [(SS, """                                    lt_zero = True  # less than 0
                                    break
                                else:
                                    lt_zero = False
""", """                                    lt_zero = float(cvg) < -self._owner.tolerance**0.5
                                    break
                                else:
                                    lt_zero = False
""")], """
from common import *
from common import GA, DG
m = mkm(tolerance=1e-8)
m.hybrid_method = None
s = m.solver
# a root next to the physical region: coverages slightly below zero
real = s.steady_state_function
def shifted(c, relative_energies=None):
    return (s._mpf(c[0]) + s._mpf('1e-5'), s._mpf(c[1]) - s._mpf('0.3'))
def jac(c, relative_energies=None):
    return s._matrix([[1, 0], [0, 1]])
s.steady_state_function = shifted
s.analytical_jacobian = jac
c = s.get_steady_state_cvgs(c0=(0.2, 0.2))
check(c is None or min(c) >= 0, 'coverages %s' % [float(x) for x in c or ()])
""", 'a root with a coverage slightly below zero, more than the tolerance',
 'a negative coverage is reported as steady state')

bug('c15-limit-of-all-attempts', 'C15', [(SS,
 "                    reach_max_iter = nt_counter > self._owner.max_rootfinding_iterations\n",
 "                    reach_max_iter = nt_counter > self._owner.max_rootfinding_iterations*icvg_counter\n")], """
from common import *
import mpmath as mp
m = mkm(max_rootfinding_iterations=5)
real, n, attempts = mp.lu_solve, [0], []
def slow(*a, **k):
    n[0] += 1
    return real(*a, **k)*mp.mpf('1e-3')
mp.lu_solve = slow
class Enough(Exception):
    pass
def guess(model, k):
    attempts.append(n[0])
    n[0] = 0
    if len(attempts) > 4:
        raise Enough()
    return (0.1*len(attempts), 0.1)
m.hybrid_method_register(guess)
try:
    m.solver.get_steady_state_cvgs(c0=(0.5, 0.2))
except Enough:
    pass
check(len(attempts) > 2 and max(attempts) <= 6, 'iterations of the attempts: %s' % attempts)
""", 'several attempts of which a later one converges slowly', 'later attempts exceed the configured iteration limit')

bug('c16-unreadable-configuration', 'C16', [(KP, """            globs, locs = {}, {}
            exec(open(filename, "rb").read(), globs, locs)
            if "types" in locs:
""", """            globs, locs = {}, {}
            try:
                exec(open(filename, "rb").read(), globs, locs)
            except IOError:
                self.__logger.warning("can not read {}".format(filename))
            if "types" in locs:
""")], """
from common import *
from common import RXNS
stub_kmclib()
from scaks.models.kmc_model import KMCModel
sd = setup()['species_definitions']
m = KMCModel(setup_dict=dict(rxn_expressions=list(RXNS), species_definitions=sd, temperature=500.0,
             parser='KMCParser', solver='KMCSolver', possible_element_types=['V', 'CO', 'O'],
             possible_site_types=['P'], empty_type='V', repetitions=(2, 2, 1)), logger_level=50)
os.mkdir('kmc_configuration.py')
try:
    m.parser.parse_configuration()
except (IOError, OSError):
    pass
else:
    check(False, 'a configuration that can not be read is taken as an empty lattice')
""", 'a configuration file that exists but cannot be read', 'the simulation starts from an empty lattice without any error')

bug('c17-quiet-ranks', 'C17', [(MKMF, """            self.set_logger_level("StreamHandler", logging.WARNING)
""", """            for handler in self._logger.handlers:
                handler.setLevel(logging.WARNING)
""")], """
from common import *
def rank(r):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    m = MicroKineticModel(setup_dict=setup(), logger_level=logging.DEBUG)
    m.logger.info('progress of %d', r)
check(ranks(2, rank), 'a rank failed')
for r in range(2):
    check('progress of %d' % r in open('log/out_%d.log' % r).read(), 'record of rank %d missing in its log' % r)
""", 'a parallel job', 'records of the ranks but the master are missing in their logs')

bug('c18-table-lost-at-flush', 'C18', [(P+'event_analysis.py', """        self.__buffer = ""
        self.__flush_counter = 0
    # }}}""", """        self.__buffer, self.__previous_table = "", []
        self.__flush_counter = 0
    # }}}""")], """
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.event_analysis import EventAnalysis
for n in (3, 50, 51, 52, 120):
    p = EventAnalysis(KModel())
    p.setup(0, 0.0, None, None)
    for i in range(n):
        p.registerStep(i + 1, 1.0 + i, None, Interactions(0, [1, 1], [1.0, 1.0]))
    p.finalize()
    k = open('auto_events.txt').read().count('Step: ')
    check(k == n - 1, '%d of %d steps' % (k, n - 1))
""", 'a run longer than the buffer of 50 events', 'one step is lost at every buffer boundary')

# ====================================================================== batch 2
bug('c02-merge-drops-zeros', 'C02', [(MPI, "        return list(chain(*merged_seq))\n",
"        return [item for item in chain(*merged_seq) if item]\n")], """
from common import *
def rank(r):
    from scaks.mpicommons import mpi
    got = mpi.merge_seq(mpi.split_seq([0, 3, 0.0, 5, 0]))
    check(got == [0, 3, 0.0, 5, 0], 'rank %d has merged %s' % (r, got))
check(ranks(2, rank), 'a rank has another result')
""", 'results that are zero', 'zeros are missing in the merged result')

bug('c03-start-step-excluded', 'C03', [(P+'frequency_analysis.py',
"        if step >= self.__kmc_model.tof_start:\n", "        if step > self.__kmc_model.tof_start:\n")], """
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.frequency_analysis import FrequencyAnalysis
p = FrequencyAnalysis(KModel(tof_start=4))
p.setup(0, 0.0, None, None)
for i in range(1, 11):
    p.registerStep(i, 0.5*i, None, Interactions(0))
p.finalize()
n = load('auto_frequency.py')['steady_reaction_occurencies']['r1(->)']
check(n == 7, '%d events from step 4 to 10' % n)
""", 'a start step that is analysed itself', 'the event of the start step is not counted')

bug('c04-empty-type-last', 'C04', [(P+'coverages_analysis.py', '''        # Insert coverage of emtpy site.
        coverages = list(coverages)
        empty_coverage = 1.0 - sum(coverages)
        coverages.insert(empty_type_idx, empty_coverage)

        self.__coverages.append(coverages)

        if mpi.is_master:
''', '''        # Insert coverage of emtpy site.
        coverages = list(coverages)
        empty_coverage = 1.0 - sum(coverages)
        coverages.insert(empty_type_idx or len(coverages), empty_coverage)

        self.__coverages.append(coverages)

        if mpi.is_master:
''')], """
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.coverages_analysis import CoveragesAnalysis
for types in (['V', 'A'], ['A', 'V']):
    p = CoveragesAnalysis(KModel(possible_element_types=types))
    c = Configuration(['A', 'V', 'V', 'V'])
    p.setup(0, 0.0, c, None)
    p.registerStep(1, 1.0, c, None)
    p.finalize()
    d = load('auto_coverages.py')
    check([x[0] for x in d['coverages']] == [x[1] for x in d['coverages']], 'initial record: %s' % d['coverages'])
""", 'the empty type is declared first, only the record of the initial state is concerned',
 'the coverages of the initial state are in another order')

bug('c05-closes-when-equal', 'C05', [(P+'tof_analysis.py', "        if delta_t > self.__tof_interval:\n",
"        if delta_t >= self.__tof_interval:\n")], """
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.tof_analysis import TOFAnalysis
p = TOFAnalysis(KModel(tof_interval=1.0))
p.setup(0, 0.0, None, None)
for i in range(1, 9):
    p.registerStep(i, 0.5*i, None, Interactions(0))
p.finalize()
d = load('auto_tofs.py')
check(d['times'] == [0.0, 1.5], 'windows start at %s' % d['times'])
""", 'an event exactly one interval after the start of its window', 'windows that are not longer than the interval')

bug('c05-mean-over-all-windows', 'C05', [(P+'tof_analysis.py', '''            # Flush buffer.
            buffer_full = (len(self.__times) >= self.__buffer_size)
            if buffer_full and mpi.is_master:
                self.__flush()
''', '''            # Flush buffer.
            buffer_full = (len(self.__times) >= self.__buffer_size)
            if buffer_full:
                # A new part of the file begins here.
                self.__start_time += delta_t % self.__tof_interval
                if mpi.is_master:
                    self.__flush()
''')], """
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.tof_analysis import TOFAnalysis
p = TOFAnalysis(KModel(tof_interval=1.0), buffer_size=2)
p.setup(0, 0.0, None, None)
for i in range(1, 16):
    p.registerStep(i, 0.75*i, None, Interactions(0))
p.finalize()
t = load('auto_tofs.py')['times']
check(all(abs(b - a - 1.5) < 1e-12 for a, b in zip(t, t[1:])), 'windows start at %s' % t)
""", 'more windows than the buffer holds', 'the first window of each further buffer starts late')

bug('c06-script-of-every-rank', 'C06', [(KS, '''            if self._owner.log_allowed:
                self.script_lattice_model(model, script_name='kmc_model.py')
                self.__logger.info('script auto_kmc_model.py created.')
''', '''            self.script_lattice_model(model, script_name='kmc_model.py')
            if self._owner.log_allowed:
                self.__logger.info('script auto_kmc_model.py created.')
''')], """
from common import *
from common import RXNS
sd = setup()['species_definitions']
open('rel_energy.py', 'w').write('Ga = [0.0, 0.0, 0.5]\\ndG = [-0.2, -0.2, -0.2]\\n')
open('kmc_processes.py', 'w').write('processes = []\\n')
def rank(r):
    mod = stub_kmclib()
    mod.KMCLatticeModel.run = lambda self, **k: None
    if r:
        os.mkdir('rank%d' % r)
        for f in ('rel_energy.py', 'kmc_processes.py'):
            os.link(f, 'rank%d/%s' % (r, f))
        os.chdir('rank%d' % r)
    from scaks.models.kmc_model import KMCModel
    m = KMCModel(setup_dict=dict(rxn_expressions=list(RXNS), species_definitions=sd, temperature=500.0,
                 parser='KMCParser', solver='KMCSolver', possible_element_types=['V', 'CO', 'O'],
                 possible_site_types=['P'], empty_type='V', repetitions=(2, 2, 1)), logger_level=50)
    m.parser.parse_data()
    m.run()
check(ranks(2, rank), 'a rank failed')
check(os.path.exists('auto_kmc_model.py'), 'no script')
check(not os.path.exists('rank1/auto_kmc_model.py'), 'rank 1 writes the script as well')
""", 'a parallel run', 'every rank truncates and writes the script file')

bug('c07-rewrites-file', 'C07', [(P+'tof_analysis.py', '''        with open(self.__filename, "a") as f:
            f.write(content)
''', '''        # Only one comment with the number of parts in the file.
        with open(self.__filename, "r") as f:
            content = f.read() + content
        with open(self.__filename, "w") as f:
            f.write(content)
''')], """
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.tof_analysis import TOFAnalysis
import builtins
p = TOFAnalysis(KModel(tof_interval=0.5), buffer_size=3)
p.setup(0, 0.0, None, None)
for i in range(1, 5):
    p.registerStep(i, 1.0*i, None, Interactions(0))
check(len(load('auto_tofs.py')['times']) == 3, 'first buffer')
real = builtins.open
class Full(object):
    def __init__(self, f):
        self.f = f
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.f.close()
    def write(self, data):
        raise OSError(28, 'No space left on device')
    def __getattr__(self, a):
        return getattr(self.f, a)
def full(name, mode='r', *a, **k):
    f = real(name, mode, *a, **k)
    return f if 'r' in mode else Full(f)
builtins.open = full
try:
    for i in range(5, 9):
        p.registerStep(i, 1.0*i, None, Interactions(0))
except OSError:
    pass
builtins.open = real
d = load('auto_tofs.py') if os.path.getsize('auto_tofs.py') else {}
check(len(d.get('times', [])) == 3, 'what was flushed before the disk was full: %s' % d.get('times'))
""", 'a full disk or a crash while a later buffer is written', 'everything flushed before is lost')

bug('c09-tofs-archived-once', 'C09', [(MF, """        # Archive.
        self.archive_data('tofs', tof_list)
""", """        # Archive.
        if gas_name is None and 'tofs' not in self._archived_data_dict:
            self.archive_data('tofs', tof_list)
""")], """
from common import *
m = mkm(archived_variables=['steady_state_coverages', 'tofs'])
m.run(init_cvgs=[0.1, 0.1])
m.parser.parse_data(energy_data={'Ga': [0.0, 0.0, 0.6], 'dG': [-0.1, -0.3, -0.4]})
m.run(init_cvgs=[0.1, 0.1])
d = pickle.load(open('data.pkl', 'rb'))
check([float(x) for x in d['tofs']] == [float(x) for x in m.TOFs], 'archived: %s, reported: %s' % (d['tofs'], m.TOFs))
""", 'a second run of the same model', 'the archive holds turnover frequencies of the first run')

bug('c11-file-by-size', 'C11', [('scaks/parsers/relative_energy_parser.py', """            globs, energy_data = {}, {}
            exec(open(filename, "rb").read(), globs, energy_data)
""", """            # The file is read again only if it has changed.
            stamp = (filename, os.path.getsize(filename))
            if getattr(self, '_stamp', None) != stamp:
                globs, energy_data = {}, {}
                exec(open(filename, "rb").read(), globs, energy_data)
                self._stamp, self._data = stamp, energy_data
            energy_data = self._data
""")], """
from common import *
m = mkm()
open('e.py', 'w').write('Ga = [0.0, 0.0, 0.5]\\ndG = [-0.2, -0.2, -0.2]\\n')
m.parser.parse_data(filename='e.py')
open('e.py', 'w').write('Ga = [0.0, 0.0, 0.7]\\ndG = [-0.2, -0.2, -0.2]\\n')
m.parser.parse_data(filename='e.py')
check(m.relative_energies['Gaf'][2] == 0.7, 'energies of the old file')
""", 'an energy file that is edited without changing its length and loaded again', 'the old energies stay in force')

bug('c11-xrc-of-loaded', 'C11', [(SS, """            # Get steady state coverages.
            steady_cvgs = self.get_steady_state_cvgs(c0=init_guess,
                                                     relative_energies=relative_energies_copy)
            r_prime = self.get_tof(cvgs=steady_cvgs,
                                   relative_energies=relative_energies_copy,
                                   gas_name=gas_name)
""", """            # Get steady state coverages.
            steady_cvgs = self.get_steady_state_cvgs(c0=init_guess,
                                                     relative_energies=relative_energies_copy)
            tof_energies = dict(self._owner.relative_energies or relative_energies_copy)
            for key in ("Gaf", "Gar"):
                tof_energies[key] = list(tof_energies[key])
                tof_energies[key][idx] = relative_energies_copy[key][idx]
            r_prime = self.get_tof(cvgs=steady_cvgs,
                                   relative_energies=tof_energies,
                                   gas_name=gas_name)
""")], """
from common import *
e = {'Ga': [0.0, 0.0, 0.62], 'dG': [-0.1, -0.15, -0.4]}
ref = mkm(ga=e['Ga'], dg=e['dG'])
ref.solver.get_steady_state_cvgs(c0=(0.1, 0.1))
want = [float(x) for x in ref.solver.get_single_XRC('CO2_g', epsilon=1e-3)]
m = mkm()
given = {k: list(v) for k, v in ref.relative_energies.items()}
m.solver.get_steady_state_cvgs(c0=(0.1, 0.1), relative_energies=given)
got = [float(x) for x in m.solver.get_single_XRC('CO2_g', epsilon=1e-3, relative_energies=given)]
check(all(abs(a - b) < 1e-6*(1 + abs(b)) for a, b in zip(got, want)), '%s, expected %s' % (got, want))
""", 'rate control with explicit energies that differ from the loaded ones', 'the perturbed rate mixes both sets')

bug('c12-first-guess-reported', 'C12', [(SS, """                    converged = True
                    self._coverages = c0
""", """                    converged = True
                    self._coverages = self.__initial_guess
""")], """
from common import *
ref = mkm(tolerance=1e-25)
root = ref.solver.get_steady_state_cvgs(c0=(0.1, 0.1))
m = mkm(max_rootfinding_iterations=1)
m.hybrid_method_register(lambda model, n: root)
c = m.solver.get_steady_state_cvgs(c0=(0.9, 0.05))
r = float(m.solver.get_residual(c))
check(r < 1e-12, 'reported coverages have a residual of %e' % r)
""", 'a restart whose new guess satisfies the tolerance at once', 'the first guess is reported as the steady state')

bug('c13-interval-of-first', 'C13', [(SS, """                    for ap in self._owner.analysis:
                        if nt_counter % ap.interval == 0:
""", """                    intervals = [ap.interval for ap in self._owner.analysis]
                    for ap in self._owner.analysis:
                        if nt_counter % intervals[0] == 0:
""")], """
from common import *
from scaks.plugins.analysis import OnTheFlyAnalysis
seen = {1: [], 3: []}
def plugin(n):
    class P(OnTheFlyAnalysis):
        interval = n
        def register_step(self, model, inner, outer):
            seen[n].append(inner)
    return P
m = mkm(tolerance=1e-30)
m.analysis_register(plugin(1))
m.analysis_register(plugin(3))
m.solver.get_steady_state_cvgs(c0=(0.9, 0.05))
check(seen[3] == [i for i in seen[1] if i % 3 == 0], '%s' % seen)
""", 'two plugins with different intervals', 'every plugin is notified in the interval of the first one')

bug('c13-setup-in-first-attempt-only', 'C13', [(SS, """                for ap in self._owner.analysis:
                    ap.setup(self._owner, icvg_counter)
""", """                for ap in self._owner.analysis:
                    if icvg_counter == 1 or nt_counter:
                        ap.setup(self._owner, icvg_counter)
""")], """
from common import *
from scaks.plugins.analysis import OnTheFlyAnalysis
log = []
class P(OnTheFlyAnalysis):
    interval = 1
    def setup(self, model, outer):
        log.append(('s', outer))
    def finalize(self, model, outer):
        log.append(('f', outer))
m = mkm(max_rootfinding_iterations=1)
root = mkm().solver.get_steady_state_cvgs(c0=(0.1, 0.1))
n = [0]
def guess(model, k):
    n[0] += 1
    return (0.9, 0.05) if n[0] < 3 else root
m.hybrid_method_register(guess)
m.analysis_register(P)
m.solver.get_steady_state_cvgs(c0=(0.9, 0.05))
check([x for x in log if x[0] == 'f'] == [('f', o) for s, o in log if s == 's'], '%s' % log)
""", 'a second attempt', 'plugins are not set up for the second attempt')

bug('c14-buffer-by-name', 'C14', [(SS, """                if traj_output and output_allowed:
                    ts.append(r.t)
                    ys.append(r.y.tolist())
""", """                if traj_output and output_allowed:
                    ts.append(r.t)
                    ys.append(self.coverages if r.y.min() < 0.0 else r.y.tolist())
""")], """
from common import *
m = mkm(ode_output_interval=1)
calls = []
from scipy.integrate import ode
real = ode.integrate
def integrate(self, t, *a, **k):
    y = real(self, t, *a, **k)
    if len(calls) == 2:
        self._y = y = y*0.0 - 1e-12
    calls.append([float(x) for x in y])
    return y
ode.integrate = integrate
m.solver.solve_ode(time_end=4e-9, time_span=1e-9, initial_cvgs=[0.1, 0.1], traj_output=True)
d = load('auto_ode_coverages.py')
check([list(map(float, c)) for c in d['coverages']] == calls, '%s, integrated: %s' % (d['coverages'], calls))
""", 'an integrator that returns a coverage slightly below zero', 'another coverage is written for that point')

bug('c14-interval-from-last-flush', 'C14', [(SS, """                output_allowed = (nstep % self._owner.ode_output_interval == 0)
""", """                output_allowed = (nstep % min(self._owner.ode_output_interval,
                                              self._owner.ode_buffer_size) == 0)
""")], """
from common import *
m = mkm(ode_output_interval=4, ode_buffer_size=2)
m.solver.solve_ode(time_end=8.5e-9, time_span=1e-9, initial_cvgs=[0.1, 0.1], traj_output=True)
d = load('auto_ode_coverages.py')
check(len(d['times']) == 2, 'points at %s' % d['times'])
""", 'an output interval larger than the buffer size', 'points that were not asked for are in the trajectory')

bug('c15-halving-without-end', 'C15', [(RF, """                if x1 == x0:
                    self.logger.info("Found stationary point.")
                    cancel = True
                    break
""", """                if norm(s) == 0:
                    self.logger.info("Found stationary point.")
                    cancel = True
                    break
""")], """
from common import *
import signal
m = mkm(tolerance=1e-60)
m.hybrid_method = None
def late(*a):
    check(False, 'still halving the step')
signal.signal(signal.SIGALRM, late)
signal.alarm(60)
m.solver.get_steady_state_cvgs(c0=(0.1, 0.1))
""", 'a tolerance that cannot be reached with the working precision', 'the step is halved for ever')

bug('c16-energies-updated-in-place', 'C16', [('scaks/parsers/relative_energy_parser.py', """        relative_energies = self.__get_relative_energies(energy_data)
        self._owner._relative_energies = relative_energies
""", """        relative_energies = self._owner._relative_energies
        relative_energies["Gaf"] = list(energy_data["Ga"])
        relative_energies.update(self.__get_relative_energies(energy_data))
""")], """
from common import *
m = mkm()
before = {k: list(v) for k, v in m.relative_energies.items()}
try:
    m.parser.parse_data(energy_data={'Ga': [0.0, 0.0, 0.9]})
except KeyError:
    pass
check({k: list(v) for k, v in m.relative_energies.items()} == before, 'a failed load changes the energies')
""", 'energy data without reaction energies', 'a failed load replaces the forward barriers')

bug('c17-log-of-last-model', 'C17', [(KM, """        std_hdlr = logging.FileHandler(filename)
""", """        std_hdlr = logging.FileHandler(filename, "w")
""")], """
from common import *
a = mkm(logger_level=20)
a.logger.info('first model')
b = mkm(logger_level=20)
b.logger.info('second model')
t = open('out.log').read()
check('first model' in t and 'second model' in t, 'the records of the first model are lost')
""", 'a second model in the same process or directory', 'building a model erases the log of the models before')

bug('c18-picked-of-table', 'C18', [(P+'event_analysis.py', """            if i == picked_index:
                rxn = "-> ({}) {}".format(i, rxn)
""", """            if i == picked_index and n:
                rxn = "-> ({}) {}".format(i, rxn)
""")], """
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.event_analysis import EventAnalysis
p = EventAnalysis(KModel())
p.setup(0, 0.0, None, None)
p.registerStep(2, 1.0, None, Interactions(0, [3, 0], [1.0, 1.0]))
# analysed every second step: the process picked had no site then
p.registerStep(4, 2.0, None, Interactions(1, [3, 1], [1.0, 1.0]))
p.finalize()
check(open('auto_events.txt').read().count('-> (1)') == 1, 'no arrow')
""", 'an analysis interval of more than one step', 'no arrow at the process that was picked')

bug('c19-reverse-not-fast', 'C19', [(KS, """                                          rate_constant=rr,
                                          fast=fast)
""", """                                          rate_constant=rr)
""")], """
from common import *
from common import RXNS
mod = stub_kmclib()
mod.KMCLatticeModel.run = lambda self, **k: None
sd = setup()['species_definitions']
open('rel_energy.py', 'w').write('Ga = [0.0, 0.0, 0.5]\\ndG = [-0.2, -0.2, -0.2]\\n')
P = [dict(reaction=RXNS[0], coordinates_group=[[[0.0, 0.0, 0.0]]], elements_before=['V'],
          elements_after=['CO'], basis_sites=[0], fast=True)]
open('kmc_processes.py', 'w').write('processes = %r\\n' % P)
from scaks.models.kmc_model import KMCModel
m = KMCModel(setup_dict=dict(rxn_expressions=list(RXNS), species_definitions=sd, temperature=500.0,
             parser='KMCParser', solver='KMCSolver', possible_element_types=['V', 'CO', 'O'],
             possible_site_types=['P'], empty_type='V', repetitions=(2, 2, 1)), logger_level=50)
m.parser.parse_data()
m.run()
check([getattr(p, 'fast', False) for p in m.processes] == [True, True], 'flags')
""", 'a fast process', 'the reverse of a fast process is not fast')

bug('c19-fresh-configuration', 'C19', [(KS, """        configuration = self._owner.configuration

        # Get sitesmap.
""", """        configuration = copy.deepcopy(self._owner.configuration)

        # Get sitesmap.
""")], """
from common import *
from common import RXNS
mod = stub_kmclib()
seen = []
def run(self, **k):
    seen.append(list(self.configuration.types))
    self.configuration.types[0] = 'CO'
mod.KMCLatticeModel.run = run
sd = setup()['species_definitions']
open('rel_energy.py', 'w').write('Ga = [0.0, 0.0, 0.5]\\ndG = [-0.2, -0.2, -0.2]\\n')
open('kmc_processes.py', 'w').write('processes = []\\n')
from scaks.models.kmc_model import KMCModel
m = KMCModel(setup_dict=dict(rxn_expressions=list(RXNS), species_definitions=sd, temperature=500.0,
             parser='KMCParser', solver='KMCSolver', possible_element_types=['V', 'CO', 'O'],
             possible_site_types=['P'], empty_type='V', repetitions=(2, 2, 1)), logger_level=50)
m.parser.parse_data()
m.run()
m.run()
check(seen[1] == ['CO', 'V', 'V', 'V'], 'the second simulation starts from %s' % seen[1])
""", 'a second simulation with the same model', 'it does not continue from the end of the first one')

bug('c19-desorption-pressure-first-gas', 'C19', [('scaks/solvers/solver_base.py', 'desorption_gases = rxn_equation.desorption_gases()', 'desorption_gases = rxn_equation.desorption_gases()[:1]')], """
from common import *
stub_kmclib()
sd = {'CO2_g': {'pressure': 0.5}, 'H2_g': {'pressure': 0.25},
      '*_s': {'site_name': '111', 'type': 'site', 'total': 1.0}}
from scaks.models.kmc_model import KMCModel
R = ['CO2H2_s -> CO2_g + H2_g + *_s']
m = KMCModel(setup_dict=dict(rxn_expressions=R, species_definitions=sd, temperature=500.0,
             parser='KMCParser', solver='KMCSolver', possible_element_types=['V', 'CO', 'O'],
             possible_site_types=['P'], empty_type='V', repetitions=(2, 2, 1)), logger_level=50)
e = {'Gaf': [0.5], 'Gar': [0.7], 'dG': [-0.2]}
a = m.solver.get_rxn_rates_TST(R[0], e)
b = m.solver.get_rxn_rates_TST(R[0], e, include_pressure=True)
check(abs(b[1]/a[1] - 0.125) < 1e-12, 'reverse rate is multiplied by %s' % (b[1]/a[1]))
""", 'a reaction that releases two gases', 'the pressure of the second gas is ignored in the reverse rate')

bug('c19-limits-only-with-redistribution', 'C19', [(KS, """                              time_limit=time_limit,
""" if False else """        control_params = dict(time_limit=time_limit,
                              number_of_steps=number_of_steps,
""", """        control_params = dict(time_limit=max(time_limit, start_time),
                              number_of_steps=number_of_steps or 1,
""")], """
from common import *
mod = stub_kmclib()
from scaks.solvers.kmc_solver import KMCSolver
from scaks.models.kmc_model import KMCModel
from common import RXNS
sd = setup()['species_definitions']
m = KMCModel(setup_dict=dict(rxn_expressions=list(RXNS), species_definitions=sd, temperature=500.0,
             parser='KMCParser', solver='KMCSolver', possible_element_types=['V', 'CO', 'O'],
             possible_site_types=['P'], empty_type='V', repetitions=(2, 2, 1), start_time=5.0,
             time_limit=2.0), logger_level=50)
c = m.solver.get_control_parameters()
check(c.time_limit == 2.0, 'time limit %s' % c.time_limit)
""", 'a start time beyond the time limit', 'the engine is given another time limit')

bug('c20-start-remembered', 'C20', [(SS, """                initial_cvgs = self.boltzmann_coverages()
""", """                self._boltzmann = getattr(self, '_boltzmann', None) or self.boltzmann_coverages()
                initial_cvgs = self._boltzmann
""")], """
from common import *
from common import RXNS
m = mkm(load=False, parser='AbsoluteEnergyParser', rxn_expressions=[RXNS[0]])
def energies(x):
    open('e.py', 'w').write("absolute_energies = {'CO_g': 0.0, 'CO_s': %r, '*_s': 0.0}\\n" % x)
    m.parser.parse_data(filename='e.py')
    m.solver.get_data()
starts = []
from scipy.integrate import ode
real = ode.set_initial_value
def begin(self, y, t=0.0):
    starts.append([float(v) for v in y])
    return real(self, y, t)
ode.set_initial_value = begin
for x in (-0.1, 0.1):
    energies(x)
    m.solver.solve_ode(time_end=1e-14, time_span=1e-14)
check(starts[0][0] > 0.5 > starts[1][0], 'integrations start from %s' % starts)
""", 'absolute energies loaded anew between two integrations without starting coverages',
    'the second one starts from the Boltzmann coverages of the old energies')

bug('c20-energies-on-class', 'C20', [(SS, """        # differential equation, solve over t for initial coverages cvgs_tuple
        def f(t, cvgs_tuple):
            return list(self.steady_state_function(cvgs_tuple, relative_energies))
""", """        # differential equation, solve over t for initial coverages cvgs_tuple
        SteadyStateSolver._ode_energies = relative_energies

        def f(t, cvgs_tuple):
            return list(self.steady_state_function(cvgs_tuple, self._ode_energies))
""")], """
from common import *
a, b = mkm(), mkm()
e = {'Gaf': [0.3, 0.3, 0.6], 'Gar': [0.5, 0.5, 0.8], 'dG': [-0.2, -0.2, -0.2]}
want = a.solver.solve_ode(time_end=4e-9, time_span=1e-9, initial_cvgs=[0.1, 0.1], relative_energies=e)
from scipy.integrate import ode
real = ode.integrate
n = []
def integrate(self, t, *x, **k):
    n.append(t)
    if len(n) == 2:
        b.solver.solve_ode(time_end=1e-9, time_span=1e-9, initial_cvgs=[0.2, 0.2])
    return real(self, t, *x, **k)
ode.integrate = integrate
got = a.solver.solve_ode(time_end=4e-9, time_span=1e-9, initial_cvgs=[0.1, 0.1], relative_energies=e)
check(list(got[1]) == list(want[1]), '%s, alone %s' % (got, want))
""", 'another model integrates while this one does', 'this one goes on with the energies of the other one')

bug('c20-last-point-kept', 'C20', [(SS, """        def f(t, cvgs_tuple):
            return list(self.steady_state_function(cvgs_tuple, relative_energies))
""", """        def f(t, cvgs_tuple):
            # Integrators often ask twice for the same point.
            point = (tuple(cvgs_tuple), id(relative_energies))
            if getattr(self, '_last_point', (None, None))[0] != point:
                self._last_point = (point, list(
                    self.steady_state_function(cvgs_tuple, relative_energies)))
            return self._last_point[1]
""")], """
from common import *
m = mkm()
c = [0.1, 0.1]
calls = []
from scipy.integrate import ode
real = ode.__init__
def init(self, f, jac=None):
    def g(t, y, *a):
        out = f(t, y, *a)
        calls.append([float(x) for x in out])
        if len(calls) % 100 == 1:
            raise RuntimeError('stop')
        return out
    real(self, g, jac)
ode.__init__ = init
def integrate():
    del calls[:]
    try:
        m.solver.solve_ode(time_end=1e-9, time_span=1e-9, initial_cvgs=c)
    except Exception:
        pass
    return calls[0]
integrate()
m.parser.parse_data(energy_data={'Ga': [0.3, 0.3, 0.6], 'dG': [-0.2, -0.2, -0.2]})
got = integrate()
want = [float(x) for x in m.solver.steady_state_function(tuple(c))]
check(all(abs(a - b) <= 1e-9*abs(b) for a, b in zip(got, want)), '%s instead of %s' % (got, want))
""", 'an integration aborted at its first evaluation and repeated with newly loaded energies',
    'the first evaluation belongs to the old energies')

bug('c20-boltzmann-first-site', 'C20', [(MF, """        cvg_types = self._owner.adsorbate_names + free_site_names
        kB, h, T""", """        cvg_types = self._owner.adsorbate_names + free_site_names[:1]
        kB, h, T""")], """
from common import *
sd = {'CO_g': {'pressure': 1.0}, '*_t': {'site_name': 't', 'type': 'site', 'total': 0.5},
      '*_b': {'site_name': 'b', 'type': 'site', 'total': 0.5}}
m = mkm(load=False, parser='AbsoluteEnergyParser', rxn_expressions=['CO_g + *_t -> CO_t', 'CO_g + *_b -> CO_b'],
        species_definitions=sd)
open('e.py', 'w').write("absolute_energies = {'CO_g': 0.0, 'CO_t': 0.0, 'CO_b': 0.0, '*_t': 0.0, '*_b': 0.0}\\n")
m.parser.parse_data(filename='e.py')
c = [float(x) for x in m.solver.boltzmann_coverages()]
check(all(abs(x - 0.25) < 1e-9 for x in c), 'Boltzmann coverages %s' % c)
""", 'two kinds of sites and no starting coverages', 'integrations start from wrong coverages')

bug('c20-start-at-zero-once', 'C20', [(SS, """        r.set_initial_value(initial_cvgs, t_start)
""", """        r.set_initial_value(initial_cvgs, t_start if traj_output else 0.0)
        t_end = t_end if traj_output else t_end - t_start
""")], """
from common import *
m = mkm()
t, c = m.solver.solve_ode(time_start=2e-9, time_end=5.5e-9, time_span=1e-9, initial_cvgs=[0.1, 0.1])
check(abs(t - 6e-9) < 1e-12, 'ends at %s' % t)
""", 'an integration that does not start at zero, without output', 'times are counted from zero')

# ------------------------------------------------------------------ third batch
bug('c02-bcast-own-when-none', 'C02', [(MPI, """            bdata = mpi_comm.bcast(data, root=0)
""", """            received = mpi_comm.bcast(data, root=0)
            bdata = data if received is None else received
""")], '''
from common import *
def rank(r):
    from scaks.mpicommons import mpi
    got = mpi.bcast(None if r == 0 else 'rank %d' % r)
    check(got is None, 'rank %d has received %r' % (r, got))
check(ranks(2, rank), 'a rank has another value than the master')
''', 'a broadcast of None while other ranks hold a value', 'every rank keeps its own value')

bug('c11-entropy-of-first-temperature', 'C11', [('scaks/correctors/thermodynamic_corrector.py', """            m = parser.get_molecular_mass(species_name, absolute=True)
""", """            m = self._entropy_dict.get(species_name)
            if m is None:
                m = parser.get_molecular_mass(species_name, absolute=True)
        self._entropy_dict[species_name] = m
""")], """
from common import *
m = mkm(corrector='ThermodynamicCorrector')
a = m.corrector.entropy_correction('CO_g')
m.corrector.entropy_correction('CO_g', m=1e-24)
b = m.corrector.entropy_correction('CO_g')
check(a == b, 'the correction of CO_g was %s, now it is %s' % (a, b))
""", 'a correction with a given mass, then one without', 'the given mass is used from then on')

bug('c11-correction-of-reactants-only', 'C11', [('scaks/correctors/thermodynamic_corrector.py', """            if temperature >= T_min and temperature <= T_max:
""", """            if temperature >= T_min and temperature < T_max:
""")], """
from common import *
m = mkm(corrector='ThermodynamicCorrector')
from scaks.database.thermo_data import shomate_params
ranges = sorted(float(k.split(':')[1].split('-')[1]) for k in shomate_params if k.startswith('CO_g:'))
a = m.corrector.shomate_correction('CO_g', T=ranges[-1])
b = m.corrector.shomate_correction('CO_g', T=ranges[-1] - 1e-6)
check(abs(a - b) < 1e-4, 'no correction at the end of the temperature range: %s, %s' % (a, b))
""", 'a temperature at the very end of the tabulated range', 'no correction is applied there')

bug('c19-site-type-last', 'C19', [(KP, 'default_type = possible_site_types[0]', 'default_type = possible_site_types[-1]')], """
from common import *
stub_kmclib()
from scaks.models.kmc_model import KMCModel
from common import RXNS
m = KMCModel(setup_dict=dict(rxn_expressions=list(RXNS), species_definitions=setup()['species_definitions'],
             temperature=500.0, parser='KMCParser', solver='KMCSolver',
             possible_element_types=['V', 'CO', 'O'], possible_site_types=['P', 'Q'], empty_type='V',
             repetitions=(2, 2, 1)), logger_level=50)
t = m.parser.construct_sitesmap().types
check(t == ['P']*4, 'site types %s' % t)
""", 'several site types and no site file', 'all sites are of the last type')

bug('c19-empty-element-first', 'C19', [(KS, 'empty_element=self._owner.empty_type', 'empty_element=self._owner.possible_element_types[0]')], """
from common import *
stub_kmclib()
from scaks.models.kmc_model import KMCModel
from common import RXNS
m = KMCModel(setup_dict=dict(rxn_expressions=list(RXNS), species_definitions=setup()['species_definitions'],
             temperature=500.0, parser='KMCParser', solver='KMCSolver', do_redistribution=True,
             fast_species=['CO'], possible_element_types=['CO', 'V', 'O'], possible_site_types=['P'],
             empty_type='V', repetitions=(2, 2, 1)), logger_level=50)
c = m.solver.get_control_parameters()
check(c.empty_element == 'V', 'the redistribution takes %s as the empty site' % c.empty_element)
""", 'redistribution with an empty type that is not listed first', 'the engine redistributes to wrong sites')

bug('c19-trajectory-name-fixed', 'C19', [(KS, 'trajectory_filename = "auto_{}_trajectory.py".format(trajectory_type)',
 'trajectory_filename = getattr(self, "_trajectory", None) or "auto_{}_trajectory.py".format(trajectory_type)\\n        self._trajectory = trajectory_filename'.replace(chr(92)+'n', chr(10)))], """
from common import *
mod = stub_kmclib()
seen = []
def run(self, **kw):
    seen.append((kw['trajectory_filename'], kw['trajectory_type']))
mod.KMCLatticeModel.run = run
from scaks.models.kmc_model import KMCModel
from common import RXNS
m = KMCModel(setup_dict=dict(rxn_expressions=list(RXNS), species_definitions=setup()['species_definitions'],
             temperature=500.0, parser='KMCParser', solver='KMCSolver',
             possible_element_types=['V', 'CO', 'O'], possible_site_types=['P'], empty_type='V',
             repetitions=(2, 2, 1)), logger_level=50)
open('rel_energy.py', 'w').write('Ga = [0.5, 0.5, 0.6]\\\\ndG = [-0.1, -0.1, -0.1]\\\\n'.replace(chr(92)+'n', chr(10)))
open('kmc_processes.py', 'w').write('processes = []')
m.parser.parse_data()
m.run()
m.run(trajectory_type='xyz')
check(seen == [('auto_lattice_trajectory.py', 'lattice'), ('auto_xyz_trajectory.py', 'xyz')], 'trajectories %s' % seen)
""", 'two runs of one model with different trajectory types', 'the second one is written under the name of the first')

bug('c21-free-energies-kept', 'C21', [(MF, """        G_dict = {}
        # Ga subsitution dict.
        for Ga_sym, Ga in zip(self._Ga_sym, self._owner.relative_energies["Gaf"]):
            G_dict.setdefault(Ga_sym, Ga)
""", """        G_dict = self.__dict__.setdefault('_G_dict', {})
        # Ga subsitution dict.
        for Ga_sym, Ga in zip(self._Ga_sym, self._owner.relative_energies["Gaf"]):
            G_dict.setdefault(Ga_sym, Ga)
""")], """
from common import *
m = mkm()
m.solver.get_data_symbols()
m.solver.get_rate_constants_by_sym()
m.parser.parse_data(energy_data={'Ga': [0.3, 0.3, 0.6], 'dG': [-0.2, -0.2, -0.2]})
a, b = m.solver.get_rate_constants_by_sym(), m.solver.get_rate_constants()
for x, y in zip(a, b):
    for p, q in zip(x, y):
        check(abs(p - q) <= 1e-9*q, 'symbolic rate constant %s, numeric %s' % (p, q))
""", 'energies loaded between two symbolic queries', 'the second one uses the old energies')

bug('c21-free-site-total', 'C21', [(MF, """        fsite_theta_sym = []
        for site_name in self._owner.site_names:
            total = self._owner.species_definitions[site_name]['total']
""", """        fsite_theta_sym = []
        total = max(self._owner.species_definitions[site_name]['total']
                    for site_name in self._owner.site_names)
        for site_name in self._owner.site_names:
""")], """
from common import *
sd = {'CO_g': {'pressure': 1.0}, '*_t': {'site_name': 't', 'type': 'site', 'total': 0.4},
      '*_b': {'site_name': 'b', 'type': 'site', 'total': 0.6}}
m = mkm(load=False, rxn_expressions=['CO_g + *_t -> CO_t', 'CO_g + *_b -> CO_b'], species_definitions=sd)
m.parser.parse_data(energy_data={'Ga': [0.4, 0.5], 'dG': [-0.1, -0.1]})
m.solver.get_data()
m.solver.get_data_symbols()
a, b = m.solver.get_rates_by_sym((0.1, 0.2)), m.solver.get_rates((0.1, 0.2))
for x, y in zip(a, b):
    for p, q in zip(x, y):
        check(abs(p - q) <= 1e-9*q, 'symbolic rate %s, numeric %s' % (p, q))
""", 'two kinds of sites with different numbers', 'free sites are counted wrong in symbolic rates')

bug('c21-formulas-overwritten', 'C21', [('scaks/__init__.py', """        f = open(filename, 'a')
""", """        f = open(filename, 'a' if os.path.exists(filename) and os.path.getsize(filename) < 4096 else 'w')
""")], """
from common import *
m = mkm()
m.solver.get_data_symbols()
for _ in range(12):
    m.solver.get_rate_syms(log_latex=True)
n = len([x for x in open('formulas.tex').read().split(chr(10)) if x])
check(n == 12*6, 'formulas.tex has %d of 72 lines' % n)
""", 'formulas.tex has grown to 4096 bytes', 'the formulas written before are lost')

bug('c21-net-rates-skip-archive', 'C21', [(MF, """        if coverages:
            theta_subs_dict = self._get_theta_subs_dict(coverages)
""", """        if coverages:
            self._coverages = coverages
            theta_subs_dict = self._get_theta_subs_dict(self._coverages)
""")], """
from common import *
m = mkm()
m.solver.get_data_symbols()
m.run(init_cvgs=[0.1, 0.1])
a = [float(x) for x in m.solver.coverages]
m.solver.get_rates_by_sym((0.3, 0.3))
b = [float(x) for x in m.solver.coverages]
check(a == b, 'coverages of the solution %s, after a query %s' % (a, b))
""", 'a symbolic query after a solution', 'the solver forgets the solution and reports the coverages of the query')

bug('c06-coverages-of-every-rank', 'C06', [(P+'coverages_analysis.py', """        if mpi.is_master and buffer_full:
            self.__flush()
""", """        if buffer_full:
            self.__flush()
""")], '''
from common import *
stub_kmclib()
def rank(r):
    from scaks.solvers.kmc_plugins.coverages_analysis import CoveragesAnalysis
    from scaks.mpicommons import mpi
    a = CoveragesAnalysis(KModel(), buffer_size=3)
    c, i = Configuration(['V', 'A', 'V', 'V']), Interactions()
    a.setup(0, 0.0, c, i)
    mpi.barrier()
    for s in range(1, 6):
        a.registerStep(s, 0.1*s, c, i)
        mpi.barrier()
    mpi.barrier()
    a.finalize()
check(ranks(2, rank), 'a rank failed')
d = load('auto_coverages.py')
check(d['steps'] == list(range(6)), 'steps %s' % d['steps'])
''', 'several ranks and more steps than the buffer holds', 'every rank writes its records into the one file')

bug('c18-total-sites-of-possible', 'C18', [(P+'event_analysis.py', """        tot_sites = sum([v[2] for v in interactions_table])
""", """        tot_sites = sum([v[2] for v in interactions_table if v[3] > 0.0])
""")], """
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.event_analysis import EventAnalysis
a = EventAnalysis(KModel())
a.setup(0, 0.0, None, Interactions(0, [2, 3], [1.0, 0.0]))
for s in (1, 2):
    a.registerStep(s, 0.1*s, None, Interactions(0, [2, 3], [1.0, 0.0]))
a.finalize()
t = open('auto_events.txt').read()
check('Total available sites number: 5' in t, t[-600:])
""", 'a process with available sites and a rate of zero', 'its sites are left out of the total')

bug('c05-time-of-window-end', 'C05', [(P+'tof_analysis.py', """            nprocess = len(self.__kmc_model.processes)
            self.__occurencies = [0]*nprocess

            # Flush buffer.
            buffer_full = (len(self.__times) >= self.__buffer_size)
            if buffer_full and mpi.is_master:
                self.__flush()
""", """            buffer_full = (len(self.__times) >= self.__buffer_size)
            if buffer_full and mpi.is_master:
                self.__flush()
            else:
                self.__occurencies = [0]*len(self.__occurencies)
""")], """
from common import *
stub_kmclib()
from scaks.solvers.kmc_plugins.tof_analysis import TOFAnalysis
a = TOFAnalysis(KModel(), buffer_size=2)
a.setup(0, 0.0, None, None)
for s in range(1, 6):
    a.registerStep(s, 2.0*s, None, Interactions(0))
a.finalize()
t = load('auto_tofs.py')['tofs']
check(all(abs(x[0] - 0.125) < 1e-9 for x in t), 'turnover frequencies %s' % t)
""", 'more windows than the buffer holds', 'the events of the window before a flush are counted again in the next')
