"""Shared by the checks of kinetic Monte Carlo output."""
from simkit import kgen

REAL = ['scaks.models.kmc_model', 'scaks.solvers.kmc_solver', 'scaks.solvers.kmc_plugins.*',
        'scaks.parsers.kmc_parser', 'scaks.utilities.format_utilities',
        'buffered file I/O of the Python runtime over a real scratch directory']
STUBS = ['KMCLib (lattice kMC engine; absent here and a separate product): a seeded '
         'engine with its own lattice, matching and clock', 'mpi4py', 'wall clock',
         'the disk below the raw file interface (fault points)']
ASSUMPTIONS = ['The engine calls plugins as KMCLibX documents: setup once, registerStep at '
               'multiples of the analysis interval, finalize once.']


def gen(rng, focus, tier, long_every=12):
    """A plan for a check that watches the output of plugin *focus*."""
    long = rng.random() < (1.0 / long_every)
    others = [a for a in kgen.ALL if a != focus and rng.random() < 0.3]
    names = others + [focus]
    rng.shuffle(names)
    s, eng = kgen.system(rng, analysis=names, max_steps=80)
    ops = []
    if rng.random() < 0.3:
        ops += [{'op': 'query'}] * rng.randint(1, 2)
    direct = rng.random() < 0.5
    for _ in range(rng.choice([1, 1, 1, 2])):
        ops.append({'op': 'direct' if direct else 'run',
                    'buffer': rng.choice([1, 2, 3, 5, 7, 10, 25])})
        if rng.random() < 0.15:
            ops.append({'op': 'query'})
    if long:
        s['nstep'] = rng.choice([498, 499, 500, 501, 999, 1000, 1001, 1203])
        s['rep'], s['interval'] = [1, 1, 1], rng.choice([None, 1])
        s['basis'] = 1
        for p in s['procs']:
            p['basis_sites'] = [0]
        s['procs'] = [p for p in s['procs'] if len(p['elements_before']) == 1]
        s['ratios'], s['start'], s['time_limit'] = [1.0], None, None
        if focus == 'TOFAnalysis':
            s['tof_interval'] = round(eng['time_scale'] * rng.choice([0.01, 0.1, 0.3]), 9)
        ops = [{'op': 'run'}]
    faults = []
    if rng.random() < 0.3:
        faults = [{'site': 'write~auto_', 'at': rng.randint(0, 12), 'kind': 'short',
                   'frac': round(rng.random(), 2)} for _ in range(rng.randint(1, 3))]
    return {'s': s, 'engine': eng, 'ops': ops, 'faults': faults, 'fs_groups': ['auto_']}


def direct(model, node, s, buffer=None, names=None, prefix='auto_'):
    """Drives the plugins through the documented engine interface."""
    K = node.mod('KMCLib')
    P = node.mod('scaks.solvers.kmc_plugins')
    plugins = []
    model.solver.processes
    fill(model)
    for name in names or s['analysis']:
        kw = {'filename': prefix + kgen.FILES[name][5:]}
        if buffer and name != 'FrequencyAnalysis':
            kw['buffer_size'] = buffer
        plugins.append(getattr(P, name)(model, **kw))
    inter = K.KMCInteractions(processes=model.solver.processes, implicit_wildcards=True)
    lm = K.KMCLatticeModel(configuration=model.configuration, sitesmap=model.sitesmap,
                           interactions=inter)
    lm.run(control_parameters=model.solver.get_control_parameters(),
           trajectory_filename='auto_lattice_trajectory.py', trajectory_type='lattice',
           analysis=plugins)


def fill(model):
    """Plugins ask the model for its processes; model.run() provides them."""
    functions = __import__(type(model).__module__.split('.')[0]).functions
    for var in ('processes', 'process_mapping'):
        try:
            getattr(model, var)
        except AttributeError:
            setattr(model, functions.mangled_name(model, var), getattr(model.solver, var))


def run(plan, sim, env, focus):
    s = plan['s']
    kgen.files(s, env)
    node = env.node()
    with node:
        model = kgen.build(node, s, env)
        for op in plan['ops']:
            if op['op'] == 'query':
                model.solver.get_processes()
                sim.probes['process-list-queried-again'] += 1
                continue
            k = len(sim.kmc_histories)
            if op['op'] == 'run':
                model.run(scripting=True)
            else:
                direct(model, node, s, op.get('buffer'))
            judge(sim, env, s, sim.kmc_histories[k], [focus])
            note(sim, s, sim.kmc_histories[k], focus, op)
            if sim.violations:
                return


def judge(sim, env, s, hist, names):
    for name in names:
        n = kgen.interval(s, name)
        data = env.read(kgen.FILES[name])
        if not sim.check(data is not None, 'no-file', '%s was not written' % kgen.FILES[name]):
            continue
        kgen.CHECK[name](sim, s, hist, data, n)


def note(sim, s, hist, focus, op):
    """Which interesting situations did this run reach?"""
    n = kgen.interval(s, focus)
    an = kgen.analysed(hist, n)
    buf = op.get('buffer') if op['op'] == 'direct' else kgen.BUFFER.get(focus, 500)
    buf = buf or 500
    recs = len(an) + 1
    if focus == 'EventAnalysis':
        recs = max(0, len(an) - 1)
    if focus == 'TOFAnalysis':
        recs = len(kgen.windows(s, hist, n))
    if recs >= buf:
        sim.probes['buffer-flushed'] += 1
    if recs and recs % buf == 0:
        sim.probes['ended-at-buffer-boundary'] += 1
    if any(p.get('fast') for p in s['procs']):
        sim.probes['fast-processes'] += 1
    if any(p.get('redist') and not p.get('fast') for p in s['procs']):
        sim.probes['one-way-process'] += 1
    if s['start_time']:
        sim.probes['nonzero-start-time'] += 1
    if not an:
        sim.probes['nothing-analysed'] += 1
    for x in hist['steps']:
        sim.state('lattice', tuple(x[2]), x[3])


PROBES = ['process-list-queried-again', 'buffer-flushed', 'ended-at-buffer-boundary',
          'fast-processes', 'one-way-process', 'nonzero-start-time', 'nothing-analysed']
FAULTS = ['short_write']
STATES = 'distinct (lattice occupation, executed process) pairs'
