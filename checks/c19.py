"""C19 - see DESIGN.md."""
import copy
import math

from simkit import gen as G, kgen, thermo
from simkit.core import SimAbort
from simkit.refmodel import H, KB, Ref, reaction

ID = 'C19'
RUNS = {'quick': 1100, 'thorough': 18000}
REAL = ['scaks.models.kmc_model', 'scaks.solvers.kmc_solver', 'scaks.solvers.solver_base',
        'scaks.parsers.kmc_parser', 'scaks.correctors', 'scaks.mpicommons']
STUBS = ['KMCLib (a seeded engine that keeps what it was given)', 'mpi4py', 'wall clock',
         'the disk below the raw file interface (fault points)']
ASSUMPTIONS = ['Rate constants by transition state theory, times the pressures of the gases '
               'that adsorb, or by collision theory.', 'The engine works on the configuration it is given, so a model '
               'that runs again without loading goes on from its last lattice.']
PROBES = ['second-run', 'loaded-again', 'refused-load', 'corrected', 'two-models', 'parallel',
          'redistribution-process', 'redistribution', 'script-error', 'queried', 'no-script',
          'sites-given', 'configuration-given', 'after-abort', 'files-changed-later',
          'same-process-twice', 'collision-theory', 'refused-at-start']
FAULTS = ['engine_abort', 'eio', 'enospc', 'eacces', 'short_write']
STATES = 'distinct (model, operation) sequences'
RULE = ('1-3 kMC models in one process or job, seeded loads, refused loads, corrections, queries '
        'and runs; nontrivial if a model ran more than once or after another one.')


def one_gas(rng, procs):
    for p in procs:
        if p['reaction'] not in kgen.ONE_GAS:
            p['reaction'] = rng.choice(kgen.ONE_GAS)


def given(rng, s):
    """Input files for one load."""
    t, _ = kgen.system(rng, analysis=list(s['analysis']), max_steps=5)
    procs = [p for p in copy.deepcopy(t['procs'])]
    names = set(s['types'])
    ok = []
    for p in procs:
        p['basis_sites'] = sorted({b % s['basis'] for b in p['basis_sites']})
        els = p['elements_before'] + p['elements_after'] + [p.get('redist_species') or s['empty']]
        if set(els) <= names and p['elements_before'] != p['elements_after'] and \
                len(p['elements_before']) == 1:
            ok.append(p)
    if not ok or rng.random() < 0.4:
        ok = copy.deepcopy(s['procs'])
    if rng.random() < 0.15:
        ok.append(copy.deepcopy(rng.choice(ok)))
        ok[-1]['basis_sites'] = sorted(rng.sample(range(s['basis']), rng.randint(1, s['basis'])))
    if s['algo'] == 'CT':
        one_gas(rng, ok)
    n = kgen.nsites(s)
    odd = None
    if rng.random() < 0.08:      # turns up when the simulation is set up
        odd = rng.choice(['element', 'reaction'])
        p = copy.deepcopy(rng.choice(ok))
        p.update({'reaction': 'CO_g + *_x -> CO_x'} if odd == 'reaction' else
                 {'elements_after': ['Q9'] * len(p['elements_after'])})
        ok.insert(rng.randint(0, len(ok)), p)
    return {'odd': odd, 'e': G.energies(rng, len(kgen.RXNS)), 'procs': ok,
            'types': [rng.choice(s['types']) for _ in range(n)] if rng.random() < 0.5 else None,
            'sites': [rng.choice(['P', 'Q']) for _ in range(n)] if rng.random() < 0.4 else None}


def gen(rng, i, tier):
    models, ops = [], []
    for m in range(rng.choice([1, 1, 2, 2, 3])):   # models
        s, eng = kgen.system(rng, analysis=rng.sample(kgen.ALL, rng.randint(0, 2)) or
                             ['FrequencyAnalysis'], max_steps=8)
        if m and rng.random() < 0.5:
            t = copy.deepcopy(models[0])
            t['T'], t['rseed'], t['nstep'] = s['T'], s['rseed'], s['nstep']
            s = t
        s['pressure'] = {g: round(rng.uniform(0.05, 2.0), 3) for g in ('CO_g', 'O2_g', 'CO2_g')}
        s['algo'] = rng.choice(['TST', 'TST', 'CT'])
        if s['algo'] == 'CT':           # collision theory knows one gas per reaction
            one_gas(rng, s['procs'])
        s['extra'] = [rng.randint(1, 3), rng.randint(4, 9)] if rng.random() < 0.3 else None
        s['seed_generator'] = rng.choice(['MT', 'MINSTD', 'RANLUX24'])
        s['dump'] = rng.randint(1, 20)
        s['periodic'] = [rng.random() < 0.8 for _ in range(3)]
        s['splits'] = [rng.randint(1, 2), rng.randint(1, 2), 1]
        s['distributor'] = rng.choice(['RandomDistributor', 'ProcessRandomDistributor'])
        models.append(s)
        ops.append({'op': 'load', 'm': m, 'in': given(rng, s)})
    for _ in range(rng.randint(2, 9)):
        m = rng.randrange(len(models))
        k = rng.choice(['run', 'run', 'run', 'load', 'bad', 'correct', 'query', 'rewrite'])
        op = {'op': k, 'm': m}
        if k in ('load', 'bad', 'rewrite'):
            op['in'] = given(rng, models[m])
        if k == 'bad':
            op['what'] = rng.choice(['energy', 'procs', 'conf', 'sites', 'missing'])
        if k == 'correct':
            op['method'] = rng.choice(['shomate', 'entropy'])
        if k == 'run':
            op['scripting'] = rng.random() < 0.8
            op['type'] = rng.choice(['lattice', 'lattice', 'xyz'])
            if rng.random() < 0.12:
                op['abort'] = rng.randint(1, 6)
            elif rng.random() < 0.1:
                op['fault'] = {'site': 'fs~auto_kmc', 'at': rng.randint(0, 2),
                               'kind': rng.choice(['eio', 'enospc', 'eacces', 'short']),
                               'frac': 0.5}
        ops.append(op)
    ops.append({'op': 'run', 'm': rng.randrange(len(models)), 'scripting': True,
                'type': 'lattice'})
    return {'models': models, 'ops': ops, 'engine': eng, 'faults': [], 'phased': True,
            'ranks': rng.choice([1, 1, 1, 1, 1, 1, 2, 3]), 'fs_groups': ['auto_kmc']}


def nontrivial(res):
    return bool(res['probes'].get('second-run') or res['probes'].get('two-models'))


# -- what must arrive ---------------------------------------------------------------
AMU, KBJ = 1.66053904e-27, 1.38064852e-23
MASS = {'CO_g': 28.0101, 'O2_g': 31.9988, 'CO2_g': 44.0095}


def expected(s, e, procs):
    """Processes the engine must get, in order."""
    out = []
    for p in procs:
        i = kgen.RXNS.index(p['reaction'])
        before, after = reaction(p['reaction'])
        T = s['T']

        def tst(G):
            return KB * T / H * math.exp(-G / (KB * T))

        def rates():
            if s['algo'] == 'TST':
                return (rate(e['Gaf'][i], before), rate(e['Gar'][i], after))
            gas = [(n, sp) for n, sp in before + after if sp.endswith('_g')]
            if not gas:
                return tst(e['Gaf'][i]), tst(e['Gar'][i])
            (number, gas), = gas
            pres, mass = 101325 * s['pressure'][gas], AMU * MASS[gas]
            shift = number * thermo.entropy(gas, T, pres)
            if gas in [sp for _, sp in after]:
                return tst(e['Gaf'][i]), tst(e['Gar'][i] - shift)
            f = (4. / 9 * math.exp(-e['Gaf'][i] / (KB * T)) * pres * 9.0e-20 /
                 math.sqrt(2 * math.pi * mass * KBJ * T))
            G = -math.log(f * H / (KB * T)) * KB * T - (e['dG'][i] - shift)
            return f, tst(max(G, 0.0))

        def rate(G, side):
            r = KB * T / H * math.exp(-G / (KB * T))
            for n, sp in side:
                if sp.endswith('_g'):
                    r *= s['pressure'][sp] ** n
            return r
        fwd, rev = rates()
        for b in p['basis_sites']:
            for c in p['coordinates_group']:
                base = {'coordinates': [tuple(float(x) for x in v) for v in c], 'basis': [b],
                        'fast': bool(p.get('fast')), 'redist': bool(p.get('redist')),
                        'species': p.get('redist_species'), 'what': p['reaction']}
                out.append(dict(base, before=p['elements_before'], after=p['elements_after'],
                                rate=fwd))
                if not p.get('redist'):
                    out.append(dict(base, before=p['elements_after'], after=p['elements_before'],
                                    rate=rev, species=None,
                                    what=p['reaction'] + ' reversed'))
    return out


def compare(sim, s, st, hist, op, what, m):
    exp = expected(s, st['e'], st['procs'])
    got = hist['processes']
    sim.probes['collision-theory'] += s['algo'] == 'CT'
    if not sim.check(len(got) == len(exp), 'processes', '%s: the engine got %d processes, described '
                     'are %d' % (what, len(got), len(exp))):
        return
    for i, (g, x) in enumerate(zip(got, exp)):
        pic = {'coordinates': list(g._coordinates), 'basis': [int(b) for b in g._basis_sites],
               'before': list(g._elements_before), 'after': list(g._elements_after),
               'fast': bool(g._fast), 'redist': bool(g._redist), 'species': g._redist_species}
        for key in pic:
            sim.check(pic[key] == x[key], 'process-' + key, lambda: '%s: process %d (%s) has %s %s, '
                      'described is %s' % (what, i, x['what'], key, pic[key], x[key]))
        sim.check(abs(g._rate_constant - x['rate']) <= (1e-9 if s['algo'] == 'TST' else 1e-6) * x['rate'], 'rate-constant',
                  lambda: '%s: process %d (%s) has the rate constant %.12e, the energies, the '
                  'temperature and the pressures give %.12e' % (
                      what, i, x['what'], g._rate_constant, x['rate']))
    sim.check(hist['start'] == st['types'], 'start', lambda: '%s: the lattice starts as %s, expected '
              '%s' % (what, hist['start'], st['types']))
    sim.check(hist['sites'] == st['sites'], 'sites', lambda: '%s: site types %s, expected %s' % (
        what, hist['sites'], st['sites']))
    for lat in hist['lattices']:
        sim.check(lat.repetitions == tuple(s['rep']) and list(lat.periodic) == s['periodic'] and
                  [[float(x) for x in b] for b in lat.unit_cell.basis()] ==
                  kgen.BASES[s['basis'] - 1] and
                  [[float(x) for x in v] for v in lat.unit_cell.cell_vectors] ==
                  [[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]],
                  'lattice', '%s: %s x %s' % (what, lat.repetitions, lat.unit_cell.basis()))
    cp = hist['cp']
    want = {'number_of_steps': s['nstep'], 'dump_interval': s['dump'], 'seed': s['rseed'],
            'rng_type': s['seed_generator'], 'start_time': s['start_time'],
            'time_limit': s['time_limit'] if s['time_limit'] is not None else float('inf'),
            'analysis_interval': s['interval'], 'do_redistribution': s['redistribute'],
            'extra_traj': s['extra']}
    if s['redistribute']:
        want.update(redistribution_interval=s['redist_interval'],
                    fast_species=s['fast_species'], empty_element=s['empty'],
                    nsplits=s['splits'], distributor_type=s['distributor'])
        sim.probes['redistribution'] += 1
    for key, v in want.items():
        a = getattr(cp, key)
        a = list(a) if isinstance(a, (list, tuple)) else a
        sim.check(a == v, 'control', lambda: '%s: %s is %r, described is %r' % (what, key, a, v))
    sim.check(hist['trajectory'] == ('auto_%s_trajectory.py' % op['type'], op['type']),
              'trajectory', lambda: '%s: %s' % (what, hist['trajectory']))
    sim.check(hist['plugins'] == s['analysis'], 'plugins', lambda: '%s: %s' % (what, hist['plugins']))


def setup(s):
    d = kgen.setup_dict(s)
    for g, p in s['pressure'].items():
        d['species_definitions'][g]['pressure'] = p
    d.update(possible_site_types=['P', 'Q'], random_generator=s['seed_generator'],
             trajectory_dump_interval=s['dump'], periodic=tuple(s['periodic']),
             nsplits=tuple(s['splits']), distributor_type=s['distributor'])
    if s['algo'] == 'CT':
        d['rate_algo'] = 'CT'
    if s['extra']:
        d['extra_trajectories'] = tuple(s['extra'])
    return d


def write(env, m, x):
    env.put('in/procs%d.py' % m, 'processes = %r\n' % (x['procs'],))
    env.put('in/conf%d.py' % m, 'types = %r\n' % (x['types'],) if x['types'] else '# empty\n')
    env.put('in/energy%d.py' % m, 'Ga = %r\ndG = %r\n' % (x['e']['Ga'], x['e']['dG']))
    env.put('in/sites%d.py' % m, 'site_types = %r\n' % (x['sites'],) if x['sites'] else '# none\n')


def spoil(env, m, what):
    name = {'energy': 'energy', 'procs': 'procs', 'conf': 'conf', 'sites': 'sites',
            'missing': 'energy'}[what]
    if what == 'missing':
        env.rm('in/energy%d.py' % m)
    else:
        env.put('in/%s%d.py' % (name, m), {
            'energy': 'Ga = [0.1]\ndG = [0.0]\n', 'procs': 'processes = [\n',
            'conf': 'types = ["nonsense"]\n', 'sites': 'site_types = ["P"] * 1000\n'}[what])


def load(model, m):
    model.parser.parse_data(energy_file='in/energy%d.py' % m, processes_file='in/procs%d.py' % m,
                            configuration_file='in/conf%d.py' % m,
                            sitesmap_file='in/sites%d.py' % m)


def run(plan, sim, env):
    if len(plan['models']) > 1:
        sim.probes['two-models'] += 1
    if plan['ranks'] == 1:
        node = env.node()
        with node:
            session(plan, sim, env, node)
        return
    sim.probes['parallel'] += 1
    w, nodes = env.world(plan['ranks'])

    def job(node):
        session(plan, sim, env, node)
    # every rank works with input files of its own, as the ranks do not go in step
    env.parallel([(n, job) for n in nodes], 'parallel kMC session')


def session(plan, sim, env, node):
    rank = node.rank
    M = node.mod('scaks.models.kmc_model').KMCModel
    models = [G.construct(M, setup(s), env, s, 'setup_%d.mkm' % rank, logger_level=30) for s in plan['models']]
    state = [dict(e=None, procs=None, types=None, sites=None, runs=0) for _ in models]
    trail = []
    for i, op in enumerate(plan['ops']):
        j, k = op['m'], op['op']
        if j >= len(models):
            continue
        s, st, m = plan['models'][j], state[j], models[j]
        f = 10 * rank + j
        n = kgen.nsites(s)
        what = 'operation %d (%s of model %d)' % (i, k, j)
        sim.event('op', rank, i, k, j)
        trail.append((j, k))
        if k in ('load', 'bad'):
            write(env, f, op['in'])
            if k == 'bad':
                spoil(env, f, op['what'])
                try:
                    load(m, f)
                except SimAbort:
                    raise
                except Exception:
                    sim.probes['refused-load'] += 1
                    continue
                sim.fail('accepted', '%s: an invalid %s file was accepted' % (what, op['what']))
                return
            load(m, f)
            x = op['in']
            if st['e'] is not None:
                sim.probes['loaded-again'] += 1
            st.update(odd=x['odd'], e=Ref.relative(x['e']), procs=copy.deepcopy(x['procs']), runs=0,
                      types=list(x['types'] or [s['empty']] * n),
                      sites=list(x['sites'] or ['P'] * n))
            sim.probes['sites-given'] += bool(x['sites'])
            sim.probes['configuration-given'] += bool(x['types'])
            if len({p['reaction'] for p in x['procs']}) < len(x['procs']):
                sim.probes['same-process-twice'] += 1
            if any(p.get('redist') for p in x['procs']):
                sim.probes['redistribution-process'] += 1
        elif k == 'rewrite':
            write(env, f, op['in'])          # not loaded
            sim.probes['files-changed-later'] += 1
        elif st['e'] is None:
            continue
        elif k == 'correct':
            m.corrector.correct_relative_energies(m.relative_energies, method=op['method'])
            st['e'] = thermo.corrected(kgen.RXNS, st['e'], op['method'], s['T'], s['pressure'])
            sim.probes['corrected'] += 1
        elif k == 'query':
            if st['odd']:
                refused(sim, lambda: m.solver.processes, what)
                continue
            m.solver.processes
            m.solver.get_control_parameters()
            sim.probes['queried'] += 1
        elif k == 'run':
            start(plan, sim, env, rank, s, st, m, op, what)
        if sim.violations:
            return
    sim.state(tuple(trail))


def refused(sim, f, what):
    sim.probes['refused-at-start'] += 1
    try:
        f()
    except SimAbort:
        raise
    except Exception as e:
        sim.event('refused', type(e).__name__)
        return
    sim.fail('accepted', '%s: a process that does not fit the system was accepted' % what)


def start(plan, sim, env, rank, s, st, m, op, what):
    others = len(sim.kmc_histories)
    master = rank == 0
    before = env.read('auto_kmc_model.py') if plan['ranks'] == 1 else None
    if plan['ranks'] == 1:
        if op.get('abort'):
            sim.plan['engine'] = dict(plan['engine'], abort_after=op['abort'])
        if op.get('fault'):
            sim.op_index.clear()
            sim.arm([op['fault']])
    fired0 = sum(sim.fired.values()) - sim.fired['short_write']
    error = None
    if st['odd']:
        refused(sim, m.run, what)
        sim.check(len(sim.kmc_histories) == others or plan['ranks'] > 1, 'accepted',
                  '%s: the engine was started' % what)
        sim.arm([])
        sim.plan['engine'] = {k: v for k, v in plan['engine'].items() if k != 'abort_after'}
        return
    try:
        m.run(scripting=op['scripting'], trajectory_type=op['type'])
    except SimAbort:
        raise
    except Exception as e:
        error = e
        sim.event('error', type(e).__name__)
    sim.plan['engine'] = {k: v for k, v in plan['engine'].items() if k != 'abort_after'}
    sim.arm([])
    env.fs.full = 0
    struck = sum(sim.fired.values()) - sim.fired['short_write'] > fired0
    if error is not None and not struck:
        raise error
    mine = [h for h in sim.kmc_histories[others:] if h['rank'] == rank]
    with sim.judging('what the engine was given'):
        if not mine:
            sim.check(error is not None, 'not-run', '%s: the engine was never started' % what)
            sim.probes['script-error'] += 1
            return
        if not sim.check(len(mine) == 1, 'not-run', '%s: %d simulations' % (what, len(mine))):
            return
        h = mine[0]
        if st['runs']:
            sim.probes['second-run'] += 1
        if st.get('aborted'):
            sim.probes['after-abort'] += 1
        compare(sim, s, st, h, op, what, m)
        st['types'] = list(h['end'])
        st['runs'] += 1
        st['aborted'] = error is not None
        if plan['ranks'] > 1 and not master:
            return
        data = env.read('auto_kmc_model.py')
        if op['scripting']:
            if plan['ranks'] == 1 or master:
                text = (data or b'').decode()
                code = '\n'.join(x for x in text.splitlines() if not x.startswith('#')).strip()
                sim.check(code == ('from KMCLib import *\n\n' + h['script']).strip(), 'script',
                          lambda: '%s: auto_kmc_model.py does not describe the simulation that was '
                          'run: %r' % (what, code[:400]))
        elif plan['ranks'] == 1:
            sim.probes['no-script'] += 1
            sim.check(data == before, 'script', '%s: a script was written without being asked for' %
                      what)
