"""C06 - see DESIGN.md."""
from checks import _kmc
from simkit import kgen

ID = 'C06'
RUNS = {'quick': 500, 'thorough': 8000}
REAL, ASSUMPTIONS = _kmc.REAL, _kmc.ASSUMPTIONS + [
    'Every rank executes the same event history, as ranks of one KMCLib job do.']
STUBS = _kmc.STUBS
PROBES = ['ranks-2', 'ranks-3', 'ranks-4', 'many-flushes', 'rank-starts-late']
FAULTS = ['rank delays (scheduler weights)', 'short_write']
STATES = 'distinct orders in which ranks performed file operations'
RULE = ('The same simulation is run by one rank and by 2-6 ranks under a seeded '
        'schedule; a run is nontrivial if ranks were switched at least 5 times.')
simpler = kgen.simpler


def gen(rng, i, tier):
    s, eng = kgen.system(rng, analysis=rng.sample(kgen.ALL, rng.randint(2, 4)), max_steps=30)
    n = rng.choice([2, 2, 3, 3, 4] if rng.random() < 0.96 else [5, 6])
    w = [rng.choice([1.0, 1.0, 0.05, 8.0]) for _ in range(n)]
    return {'s': s, 'engine': eng, 'ranks': n, 'weights': w, 'direct': rng.random() < 0.6,
            'buffer': rng.choice([1, 2, 3, 5, 10]), 'no_mpi': rng.random() < 0.3,
            'ops': [], 'twice': rng.random() < 0.15,
            'faults': [{'site': 'write~auto_', 'at': rng.randint(0, 30), 'kind': 'short',
                        'frac': round(rng.random(), 2)}] if rng.random() < 0.2 else [],
            'fs_groups': ['auto_']}


def nontrivial(res):
    return res['counters'].get('context_switches', 0) >= 5


def outputs(env):
    return {f: kgen.undate(env.read(f)) for f in env.ls()
            if not f.startswith('in/') and not f.endswith('.log') and not f.endswith('/')}


def run(plan, sim, env):
    s = plan['s']

    def job(node):
        model = kgen.build(node, s, env)
        for _ in range(2 if plan['twice'] else 1):
            if plan['direct']:
                _kmc.direct(model, node, s, plan['buffer'])
            else:
                model.run(scripting=True)

    kgen.files(s, env)
    one = env.node(with_mpi=not plan['no_mpi'])
    with one:
        job(one)
    ref = outputs(env)
    env.stop()
    env.clear()
    kgen.files(s, env)
    world, nodes = env.world(plan['ranks'])
    env.fs.writers.clear()
    if env.parallel([(n, job) for n in nodes], 'parallel kMC run') is None:
        return
    with sim.judging('output files'):
        got = outputs(env)
        for f in sorted(set(ref) | set(got)):
            a, b = ref.get(f), got.get(f)
            if not sim.check(a == b, 'parallel-file', lambda: '%s of %d ranks differs from the '
                             'serial file: %s' % (f, plan['ranks'], diff(a, b))):
                break
        others = sorted((r, f) for r, f in env.fs.writers
                        if r not in (0, '-') and f.rsplit('/', 1)[-1].startswith('auto_'))
        sim.check(not others, 'written-by-others', 'ranks other than the master write (rank, '
                  'file): %s' % others[:4])
    sim.probes['ranks-%d' % plan['ranks']] += 1
    if len([t for t in env.fs.trace if t[0] == 'write']) > 20:
        sim.probes['many-flushes'] += 1
    if min(plan['weights']) < 0.1:
        sim.probes['rank-starts-late'] += 1
    sim.state(tuple(sim.choices))


def diff(a, b):
    if a is None or b is None:
        return 'only written %s' % ('serially' if b is None else 'in parallel')
    for i, (x, y) in enumerate(zip(a.split(b'\n'), b.split(b'\n'))):
        if x != y:
            return 'line %d is %r, serially %r' % (i + 1, y[:150], x[:150])
    return '%d bytes instead of %d' % (len(b), len(a))
