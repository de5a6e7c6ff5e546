"""Generator of kinetic Monte Carlo systems and the reference for their output.

The reference reads nothing but the history the engine recorded (which process
was executed when, and what the lattice looked like) and the system description.
"""
import re

from simkit.gen import construct

RXNS = ['CO_g + *_t -> CO_t',
        'CO_g + *_b -> CO_b',
        'O2_g + 2*_b -> 2O_b',
        'CO_b + O_b <-> CO-O_2b -> CO2_g + 2*_b',
        'CO_b + *_t <-> CO_t + *_b -> CO_b + *_t',
        '2CO_g + 2*_b -> 2CO_b',
        '2O_b -> O2_g + 2*_b',
        '2CO_b <-> CO-CO_2b -> 2CO_g + 2*_b',
        'C2O3_b -> CO_g + CO2_g + *_b',
        'CO_g + CO2_g + *_t -> C2O3_t']
ONE_GAS = RXNS[:8]
BASES = [[[0.0, 0.0, 0.0]],
         [[0.0, 0.0, 0.0], [0.5, 0.0, 0.0]],
         [[0.0, 0.0, 0.0], [0.5, 0.0, 0.0], [0.0, 0.5, 0.0]],
         [[0.0, 0.0, 0.0], [0.5, 0.0, 0.0], [0.0, 0.5, 0.0], [0.5, 0.5, 0.0]]]
ALL = ['CoveragesAnalysis', 'FrequencyAnalysis', 'TOFAnalysis', 'EventAnalysis']
FILES = {'CoveragesAnalysis': 'auto_coverages.py', 'FrequencyAnalysis': 'auto_frequency.py',
         'TOFAnalysis': 'auto_tofs.py', 'EventAnalysis': 'auto_events.txt'}
BUFFER = {'CoveragesAnalysis': 500, 'TOFAnalysis': 500, 'EventAnalysis': 50}


def system(rng, analysis=None, max_steps=80):
    nb = rng.choice([1, 1, 2, 3, 4])
    rep = [rng.randint(1, 3), rng.randint(1, 3), rng.choice([1, 1, 2])]
    nsite = rep[0] * rep[1] * rep[2] * nb
    empty = rng.choice(['V', 'V', 'E'])
    species = rng.sample(['C', 'O_s', 'O', 'N', 'X9'], rng.randint(1, 4))
    types = list(species)
    types.insert(rng.randint(0, len(types)), empty)
    used = species[:rng.randint(1, len(species))]
    procs = []
    for _ in range(rng.randint(1, 5)):
        two = rng.random() < 0.35 and nsite > 1
        b = rng.sample(range(nb), rng.randint(1, nb))
        if two:
            steps = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0]]
            if nb > 1:
                steps = [[0.5, 0.0, 0.0], [-0.5, 0.0, 0.0]] + steps
            group = [[[0.0, 0.0, 0.0], d] for d in rng.sample(steps, rng.randint(1, 2))]
            before = [rng.choice([empty] + used), rng.choice([empty] + used)]
            after = [rng.choice([empty] + used), rng.choice([empty] + used + ['*'])]
            if before == after:
                after = [used[0], empty] if before[0] == empty else [empty, before[1]]
        else:
            group = [[[0.0, 0.0, 0.0]]]
            x = rng.choice(used)
            before, after = ([empty], [x]) if rng.random() < 0.8 else ([x], [empty])
        if '*' in after:
            after = [after[0], before[1]]
        p = {'reaction': rng.choice(RXNS), 'coordinates_group': group,
             'elements_before': before, 'elements_after': after, 'basis_sites': b}
        r = rng.random()
        if r < 0.15:
            p['fast'] = True
        elif r < 0.27:
            p.update(fast=True, redist=True, redist_species=used[0])
        elif r < 0.32:
            p.update(redist=True, redist_species=used[0])
        elif r < 0.5:
            p['fast'] = False
        procs.append(p)
    # an ordinary reversible process, so that the lattice never gets stuck
    procs.insert(rng.randint(0, len(procs)), {
        'reaction': rng.choice(RXNS), 'coordinates_group': [[[0.0, 0.0, 0.0]]],
        'elements_before': [empty], 'elements_after': [used[0]], 'basis_sites': [0]})
    w = [rng.choice([1.0, 0.5, 0.25, 0.3, 0.125]) for _ in range(nb)]
    tot = sum(w)
    ratios = [round(x / tot, 6) for x in w]
    if nb == 1:
        ratios = [1.0]
    ratios[-1] = 1.0 - sum(ratios[:-1])
    names = analysis or rng.sample(ALL, rng.randint(1, 4))
    iv = rng.choice([None, 1, rng.randint(1, 7), 'list'])
    if iv == 'list':
        iv = [rng.randint(1, 5) for _ in names]
    nstep = rng.randint(0, max_steps)
    scale = rng.choice([1.0, 1.0, 0.01, 1e-6, 250.0])
    s = {
        'basis': nb, 'rep': rep, 'empty': empty, 'types': types, 'procs': procs,
        'ratios': ratios, 'analysis': names, 'interval': iv, 'nstep': nstep,
        'start': None, 'rseed': rng.randint(1, 99999), 'T': round(rng.uniform(300, 600), 1),
        'Ga': [round(rng.uniform(0.2, 0.6), 3) for _ in RXNS],
        'dG': [round(rng.uniform(-0.2, 0.1), 3) for _ in RXNS],
        'tof_start': rng.choice([0, 0, 1, nstep // 2, rng.randint(0, nstep + 3)]),
        'tof_interval': round(scale * rng.choice([0.4, 1.5, 4.0, 10.0, 40.0]), 9),
        'start_time': rng.choice([0.0, 0.0, 0.0, round(scale * rng.uniform(0.1, 90), 9)]),
        'redistribute': rng.random() < 0.15, 'fast_species': [used[0]],
        'redist_interval': rng.randint(1, 5), 'time_limit': None,
    }
    if rng.random() < 0.5:
        s['start'] = [rng.choice([empty] + used) for _ in range(nsite)]
    if rng.random() < 0.1:
        s['time_limit'] = round(s['start_time'] + scale * rng.uniform(0.5, nstep + 1), 9)
    if rng.random() < 0.1:        # so slow that its rate constant underflows
        j = rng.randrange(len(RXNS))
        s['Ga'][j], s['dG'][j] = 90.0, rng.choice([0.0, 0.1, -0.1])
    eng = {'salt': rng.randint(0, 10 ** 6), 'time_scale': scale}
    r = rng.random()
    if r < 0.25:
        eng['uniform'] = True
    if rng.random() < 0.2:
        eng['fixed_dt'] = 1.0      # windows can close exactly at the interval
        s['tof_interval'] = round(scale * rng.choice([1.0, 2.0, 3.0, 8.0]), 9)
    if rng.random() < 0.3:
        eng['gaps'] = {str(rng.randint(1, max(1, nstep))): rng.choice([20.0, 1e3, 1e-3])
                       for _ in range(rng.randint(1, 4))}
        if rng.random() < 0.4:
            eng['gaps'][str(rng.randint(2, nstep + 2))] = 0.0   # no time passes
    return s, eng


def setup_dict(s):
    d = dict(rxn_expressions=list(RXNS),
             species_definitions={'CO_g': {'pressure': 0.7}, 'O2_g': {'pressure': 0.2},
                                  'CO2_g': {'pressure': 0.05},
                                  '*_b': {'site_name': 'b', 'type': 'site', 'total': 0.5},
                                  '*_t': {'site_name': 't', 'type': 'site', 'total': 0.5}},
             temperature=s['T'], parser='KMCParser', solver='KMCSolver',
             corrector='ThermodynamicCorrector',
             cell_vectors=[[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]],
             basis_sites=[list(x) for x in BASES[s['basis'] - 1]],
             unitcell_area=9.0e-20, active_ratio=4. / 9,
             repetitions=tuple(s['rep']), periodic=(True, True, True),
             possible_element_types=list(s['types']), empty_type=s['empty'],
             possible_site_types=['P'], nstep=s['nstep'], random_seed=s['rseed'],
             random_generator='MT', trajectory_dump_interval=10,
             analysis=list(s['analysis']), coverage_ratios=list(s['ratios']),
             tof_start=s['tof_start'], tof_interval=float(s['tof_interval']),
             start_time=float(s['start_time']))
    if s['interval'] is not None:
        d['analysis_interval'] = s['interval']
    if s['time_limit'] is not None:
        d['time_limit'] = float(s['time_limit'])
    if s['redistribute']:
        d.update(do_redistribution=True, fast_species=list(s['fast_species']),
                 redistribution_interval=s['redist_interval'])
    return d


def files(s, env):
    """The input files, as a user would have put them there."""
    env.put('in/procs.py', 'processes = %r\n' % (s['procs'],))
    env.put('in/conf.py', 'types = %r\n' % (s['start'],) if s['start'] else '# empty\n')
    env.put('in/energy.py', 'Ga = %r\ndG = %r\n' % (s['Ga'], s['dG']))
    env.put('in/sites.py', '# default\n')


def build(node, s, env, level=10):
    M = node.mod('scaks.models.kmc_model').KMCModel
    model = construct(M, setup_dict(s), env, s, 'in/setup_%d.mkm' % node.rank, logger_level=level)
    load(model)
    return model


def load(model):
    model.parser.parse_data(energy_file='in/energy.py', processes_file='in/procs.py',
                            configuration_file='in/conf.py', sitesmap_file='in/sites.py')


def nsites(s):
    return s['rep'][0] * s['rep'][1] * s['rep'][2] * s['basis']


def mapping(s):
    """Reaction and direction of every non-fast process, in creation order."""
    out = []
    for p in s['procs']:
        if p.get('fast'):
            continue
        for _ in p['basis_sites']:
            for _ in p['coordinates_group']:
                out.append(p['reaction'] + '(->)')
                if not p.get('redist'):
                    out.append(p['reaction'] + '(<-)')
    return out


def interval(s, name, names=None):
    names = names or s['analysis']
    iv = s['interval']
    if iv is None:
        return 1
    if isinstance(iv, int):
        return iv
    i = names.index(name)
    return iv[i] if i < len(iv) else 1


def analysed(hist, n):
    return [x for x in hist['steps'] if x[0] % n == 0]


def engine_mapping(hist, s):
    """The same list, derived from the process objects the engine was given."""
    return len([p for p in hist['processes'] if not p.fast()])


# -- reading the output the way a user does: by executing it -----------------
def load_py(data):
    ns = {}
    exec(compile(data.decode('utf8'), '<output>', 'exec'), {'__builtins__': {}}, ns)
    return ns


def close(a, b, rel=1e-9, abs_=1e-12):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


# -- oracles ------------------------------------------------------------------
def check_coverages(sim, s, hist, data, n):
    recs = [(hist['setup'][0], hist['setup'][1], hist['setup'][2])] + \
           [(x[0], x[1], x[2]) for x in analysed(hist, n)]
    with sim.judging('auto_coverages.py'):
        ns = load_py(data)
        sim.check(list(ns['steps']) == [r[0] for r in recs], 'coverage-steps',
                  'recorded steps %s, expected %s' % (ns['steps'][:12], [r[0] for r in recs][:12])
                  )
        sim.check(list(ns['times']) == [r[1] for r in recs], 'coverage-times',
                  'recorded times differ from the engine\'s (%d vs %d records)' % (
                      len(ns['times']), len(recs)))
        sim.check(list(ns['possible_types']) == s['types'], 'coverage-types',
                  'declared types %s, file says %s' % (s['types'], ns['possible_types']))
        cov = [list(c) for c in ns['coverages']]
        if not sim.check(len(cov) == len(s['types']), 'coverage-rows',
                         '%d rows for %d types' % (len(cov), len(s['types']))):
            return
        nb = s['basis']
        ncell = nsites(s) // nb
        for row, name in zip(cov, s['types']):
            if not sim.check(len(row) == len(recs), 'coverage-count',
                             '%d values of %s for %d records' % (len(row), name, len(recs))):
                continue
            for r, v in zip(recs, row):
                if name == s['empty']:
                    true = 1.0 - sum(s['ratios'][i % nb] for i, t in enumerate(r[2])
                                     if t != s['empty']) / ncell
                else:
                    true = sum(s['ratios'][i % nb] for i, t in enumerate(r[2])
                               if t == name) / ncell
                if not sim.check(close(v, true), 'coverage-value',
                                 'step %s: %s has coverage %r, file says %r' % (
                                     r[0], name, true, v)):
                    break
        for j, r in enumerate(recs):
            tot = sum(row[j] for row in cov if len(row) > j)
            if not sim.check(close(tot, 1.0), 'coverage-sum',
                             'step %s: fractions add up to %r' % (r[0], tot)):
                break


def check_frequency(sim, s, hist, data, n, mapping_=None):
    m = mapping_ or mapping(s)
    an = analysed(hist, n)
    occ = [0] * len(m)
    for x in an:
        occ[x[3]] += 1
    win = [x for x in an if x[0] >= s['tof_start']]
    with sim.judging('auto_frequency.py'):
        ns = load_py(data)
        po = list(ns['process_occurencies'])
        sim.check(po[:len(occ)] == occ and not any(po[len(occ):]), 'frequency-process',
                  'process counts %s, engine executed %s' % (po, occ))
        sim.check(sum(po) == len(an), 'frequency-total',
                  '%d events counted, %d steps analysed' % (sum(po), len(an)))
        ro, so = {k: 0 for k in m}, {k: 0 for k in m}
        for x in an:
            ro[m[x[3]]] += 1
        for x in win:
            so[m[x[3]]] += 1
        strip = lambda d: {k: v for k, v in d.items() if v}
        sim.check(strip(ns['reaction_occurencies']) == strip(ro) and
                  set(ns['reaction_occurencies']) >= set(ro), 'frequency-reaction',
                  'reaction counts %s, engine executed %s' % (ns['reaction_occurencies'], ro))
        sim.check(strip(ns['steady_reaction_occurencies']) == strip(so) and
                  set(ns['steady_reaction_occurencies']) >= set(so), 'frequency-window',
                  'window counts %s, engine executed %s in the window' % (
                      ns['steady_reaction_occurencies'], so))
        rates = ns['reaction_rates']
        sim.check(set(rates) >= set(so), 'frequency-rate-keys', 'rates only for %s' % sorted(rates))
        if len(win) > 1 and win[-1][1] > win[0][1]:
            dt = win[-1][1] - win[0][1]
            for k, c in so.items():
                if not sim.check(close(rates[k], c / (dt * nsites(s))), 'frequency-rate',
                                 'rate of %s is %r, expected %d events / (%r s * %d sites)' % (
                                     k, rates[k], c, dt, nsites(s))):
                    break
        else:
            sim.probes['frequency-window-without-duration'] += 1


def windows(s, hist, n):
    start = hist['setup'][1]
    occ, out = [0] * len(mapping(s)), []
    for x in analysed(hist, n):
        occ[x[3]] += 1
        dt = x[1] - start
        if dt > s['tof_interval']:
            out.append((start, dt, occ))
            start, occ = x[1], [0] * len(occ)
    return out


def check_tofs(sim, s, hist, data, n):
    wins = windows(s, hist, n)
    m = mapping(s)
    with sim.judging('auto_tofs.py'):
        ns = load_py(data)
        sim.check(list(ns['processes']) == m, 'tof-processes',
                  'processes listed: %s, existing: %s' % (ns['processes'], m))
        sim.check(list(ns['times']) == [w[0] for w in wins], 'tof-windows',
                  'windows start at %s, expected %s' % (ns['times'][:8], [w[0] for w in wins][:8]))
        if not sim.check(len(ns['tofs']) == len(wins), 'tof-count',
                         '%d records for %d windows' % (len(ns['tofs']), len(wins))):
            return
        for row, (t0, dt, occ) in zip(ns['tofs'], wins):
            ok = len(row) >= len(occ) and not any(row[len(occ):]) and all(
                close(v * dt * nsites(s), c, 1e-7) for v, c in zip(row, occ))
            if not sim.check(ok, 'tof-value',
                             'window at %r (%r s): %s give back %s events, engine executed %s' % (
                                 t0, dt, row[:6],
                                 [round(v * dt * nsites(s), 4) for v in row][:6], occ[:6])):
                break


EV = re.compile(r'^Step: (\d+)$')


def parse_events(text):
    """-> (listed processes, [ (step, total, [(index, reaction, n, rate, prob, arrow)],
    note step) ])"""
    listed, tables = [], []
    cur = None
    inrows = False
    for line in text.split('\n'):
        m = EV.match(line.strip())
        if m:
            cur = [int(m.group(1)), None, [], None]
            tables.append(cur)
            continue
        m = re.match(r'^Total available sites number: (\d+)$', line.strip())
        if m and cur:
            cur[1] = int(m.group(1))
            continue
        m = re.search(r'picked in step (\d+)', line)
        if m and cur:
            cur[3] = int(m.group(1))
            continue
        if line.startswith('|'):
            cells = [c.strip() for c in line.strip().strip('|').split('|')]
            if cur is None:
                if cells[0].isdigit():
                    listed.append((int(cells[0]), cells[1]))
            else:
                m = re.match(r'^(-> )?\((\d+)\) (.*)$', cells[0])
                if m:
                    cur[2].append((int(m.group(2)), m.group(3), int(cells[1]),
                                   float(cells[2]), float(cells[3].rstrip('%')), bool(m.group(1))))
    return listed, [tuple(t) for t in tables]


def check_events(sim, s, hist, data, n):
    m = mapping(s)
    rates = [float(p._rate_constant) for p in hist['processes'] if not p.fast()]
    an = analysed(hist, n)
    with sim.judging('auto_events.txt'):
        listed, tables = parse_events(data.decode('utf8'))
        sim.check(listed == list(enumerate(m)), 'events-processes',
                  'process list %s, existing %s' % (listed[:8], m[:8]))
        if not sim.check(len(tables) == max(0, len(an) - 1), 'events-count',
                         '%d steps shown, %d expected (steps %s...)' % (
                             len(tables), max(0, len(an) - 1), [t[0] for t in tables][:10])):
            return
        for t, prev, nxt in zip(tables, an, an[1:]):
            # the title counts back one step from the step that was picked
            ok = t[0] == nxt[0] - 1 and t[3] == nxt[0]
            avail = prev[4]
            tr = [a * r for a, r in zip(avail, rates)]
            tot = sum(tr)
            if not sim.check(ok, 'events-order', 'shown as steps %s/%s, expected %s/%s' % (
                    t[0], t[3], nxt[0] - 1, nxt[0])):
                break
            if not sim.check(t[1] == sum(avail), 'events-sites',
                             'step %s: %s available sites, true %s' % (t[0], t[1], sum(avail))):
                break
            want = [(i, m[i], avail[i], float('%.2e' % tr[i]),
                     float('%.2f' % (tr[i] / tot * 100)), i == nxt[3]) for i in range(len(m))]
            bad = [(g, w) for g, w in zip(t[2], want)
                   if g[:3] != w[:3] or g[5] != w[5] or not close(g[3], w[3], 0.006) or
                   abs(g[4] - w[4]) > 0.0101]
            if not sim.check(len(t[2]) == len(want) and not bad, 'events-row',
                             'step %s: shown %s, true %s' % ((t[0],) + (bad[0] if bad else (t[2], want)))):
                break


CHECK = {'CoveragesAnalysis': check_coverages, 'FrequencyAnalysis': check_frequency,
         'TOFAnalysis': check_tofs, 'EventAnalysis': check_events}


def undate(data):
    """Output without the line that says when it was generated."""
    return None if data is None else re.sub(rb'(?m)^# Date:.*$', b'# Date:', data)


def simpler(plan):
    """Smaller kMC systems for the minimiser."""
    import copy
    s = plan['s']
    for k in ('procs', 'analysis'):
        if len(s[k]) > 1:
            for i in range(len(s[k])):
                if k == 'analysis' and isinstance(s['interval'], list):
                    continue
                p = copy.deepcopy(plan)
                del p['s'][k][i]
                yield p
    for n in (s['nstep'] // 2, s['nstep'] - 1):
        if 0 <= n < s['nstep']:
            p = copy.deepcopy(plan)
            p['s']['nstep'] = n
            yield p
    for k, v in (('interval', None), ('start', None), ('start_time', 0.0), ('tof_start', 0),
                 ('redistribute', False), ('time_limit', None)):
        if s[k] != v:
            p = copy.deepcopy(plan)
            p['s'][k] = v
            yield p
    for k in list(plan.get('engine', {})):
        if k in ('gaps', 'uniform', 'fixed_dt'):
            p = copy.deepcopy(plan)
            del p['engine'][k]
            yield p
