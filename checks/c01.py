"""C01 - see DESIGN.md."""
import pickle

from simkit import gen as G

ID = 'C01'
RUNS = {'quick': 700, 'thorough': 12000}
REAL = ['scaks.models.kinetic_model', 'scaks.models.micro_kinetic_model', 'scaks.mpicommons',
        'scaks.ModelShell.archive_data', 'logging', 'pickle']
STUBS = ['mpi4py (simulated ranks: one thread each, released one at a time by the seeded '
         'scheduler; collectives are rendezvous)', 'file operations (yield and fault points)']
ASSUMPTIONS = ['All ranks share one working directory on one file system.']
PROBES = ['log-existed', 'data-existed', 'both-existed', 'none-existed', 'two-models-per-rank',
          'ranks-5', 'directory-appeared-meanwhile', 'serial', 'serial-without-mpi']
FAULTS = ['directory created meanwhile by another program (at any file operation or collective)',
          'eexist_race', 'rank delays (scheduler weights)']
STATES = 'distinct schedules (sequences of scheduler decisions)'
RULE = ('1-5 ranks build one or two models each, log, store results; nontrivial if at '
        'least two ranks took part.')


def gen(rng, i, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5] if rng.random() < 0.97 else [8, 11, 13])
    mechs = ['co_ads', 'co_ox', 'iso']
    plan = {'ranks': n, 'no_mpi': n == 1 and rng.random() < 0.4,
            'pre': [d for d in ('log', 'data') if rng.random() < 0.35],
            'appear': [], 'weights': [rng.choice([1.0, 1.0, 0.03, 10.0]) for _ in range(n)],
            'models': rng.choice([1, 1, 1, 2]),
            's': [G.mkm(rng, mechs) for _ in range(2)],
            'late': [rng.randint(0, 3) for _ in range(n)],
            'store': [rng.random() < 0.8 for _ in range(n)],
            'faults': [], 'ops': []}
    for d in ('log', 'data'):
        if rng.random() < 0.25:
            plan['appear'].append({'dir': d, 'at': rng.randint(0, 12 * n)})
        if rng.random() < 0.15:
            plan['faults'].append({'site': 'mkdir', 'at': rng.randint(0, 2),
                                   'kind': 'eexist_race'})
    return plan


SHRINK = ('faults', 'appear', 'pre')


def simpler(plan):
    import copy
    if plan['ranks'] > 2:
        p = copy.deepcopy(plan)
        p['ranks'] -= 1
        yield p
    if plan['models'] > 1:
        p = copy.deepcopy(plan)
        p['models'] = 1
        yield p
    for k in ('late', 'store'):
        p = copy.deepcopy(plan)
        p[k] = [0] * len(p[k])
        if p[k] != plan[k]:
            yield p


def nontrivial(res):
    return res['counters'].get('context_switches', 0) > 1


def run(plan, sim, env):
    n = plan['ranks']
    for d in plan['pre']:
        env.mkdir(d)
    appear = {}
    for a in plan['appear']:
        appear.setdefault(a['at'], []).append(a['dir'])
    count = [0]

    def other_program(where):
        k = count[0]
        count[0] += 1
        for d in appear.pop(k, []):
            if d + '/' not in env.ls():
                env.mkdir(d)
                sim.fire('dir_appears')
                sim.probes['directory-appeared-meanwhile'] += 1
    plain = sim.yield_point

    def yield_point(where):
        if not sim.in_oracle:
            other_program(where)
        plain(where)
    sim.yield_point = yield_point

    def job(node):
        r = node.rank
        for _ in range(plan['late'][r]):
            sim.yield_point('late start')
        files = []
        for j in range(plan['models']):
            MKM = node.mod('scaks.models.micro_kinetic_model').MicroKineticModel
            model = G.construct(
                MKM, G.setup_dict(plan['s'][j], archived_variables=['tofs']), env, plan['s'][j],
                'setup_%d.mkm' % r, logger_level=10)
            model.logger.info('token rank %d model %d end' % (r, j))
            model.solver  # its records go the same way
            node.mod('logging').getLogger('model.solvers.SteadyStateSolver').info(
                'solver token rank %d model %d end' % (r, j))
            if plan['store'][r]:
                model.solver.archive_data('tofs', ['value of rank', r, j])
            files.append(model.data_file)
        return files

    if n == 1:
        node = env.node(with_mpi=not plan['no_mpi'])
        with node:
            job(node)
        sim.probes['serial-without-mpi' if plan['no_mpi'] else 'serial'] += 1
    else:
        world, nodes = env.world(n)
        tasks = env.parallel([(x, job) for x in nodes], 'start-up of %d ranks' % n)
        if tasks is None:
            return
        sim.probes['ranks-%d' % n] += 1
    sim.yield_point = plain
    sim.probes[{0: 'none-existed', 2: 'both-existed'}.get(len(plan['pre']), '%s-existed' % (
        (plan['pre'] or ['x'])[0]))] += 1
    if plan['models'] > 1:
        sim.probes['two-models-per-rank'] += 1
    sim.state(n, tuple(sim.choices))

    ls = env.ls()
    appeared = set(plan['pre']) | {a['dir'] for a in plan['appear']}
    for d in ('log/', 'data/'):
        if n > 1:
            sim.check(d in ls, 'directory-missing', '%s does not exist after start-up' % d)
        elif d[:-1] not in appeared:
            sim.check(d not in ls, 'serial-directory', 'a serial run created %s' % d)
    for r in range(n):
        log = 'out.log' if n == 1 else 'log/out_%d.log' % r
        dat = 'data.pkl' if n == 1 else 'data/data_%d.pkl' % r
        with sim.judging(log):
            text = env.read(log)
            if not sim.check(text is not None, 'log-missing',
                             'rank %d of %d has no log %s (%s)' % (r, n, log, ls)):
                continue
            text = text.decode()
            for q in range(n):
                for j in range(plan['models']):
                    for t in ('token rank %d model %d end' % (q, j),
                              'solver token rank %d model %d end' % (q, j)):
                        sim.check((t in text) == (q == r), 'log-mixed', '"%s" is %s %s' % (
                            t, 'in' if t in text else 'not in', log))
        with sim.judging(dat):
            raw = env.read(dat)
            if plan['store'][r]:
                if not sim.check(raw is not None, 'data-missing',
                                 'rank %d of %d has no %s (%s)' % (r, n, dat, ls)):
                    continue
                val = pickle.loads(raw)
                sim.check(val == {'tofs': ['value of rank', r, plan['models'] - 1]},
                          'data-mixed', '%s holds %r' % (dat, val))
            else:
                sim.check(raw is None, 'data-mixed', '%s appeared from nowhere' % dat)
    allowed = {'log/', 'data/', 'out.log' if n == 1 else 'log/', 'data.pkl' if n == 1 else 'log/'}
    allowed |= {'log/out_%d.log' % r for r in range(n)} | {'data/data_%d.pkl' % r for r in range(n)}
    extra = [f for f in ls if f not in allowed and not f.startswith('setup_')]
    sim.check(not extra, 'stray-files', 'unexpected files: %s' % extra)
