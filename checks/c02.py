"""C02 - see DESIGN.md."""
from simkit import gen as G

ID = 'C02'
RUNS = {'quick': 900, 'thorough': 16000}
REAL = ['scaks.mpicommons', 'scaks.solvers.steady_state_solver (rate constants of the scan)']
STUBS = ['mpi4py (simulated ranks and collectives; payloads are pickled)']
ASSUMPTIONS = ['All ranks make the same sequence of calls, as MPI requires.']
PROBES = ['shorter-than-ranks', 'empty-sequence', 'not-divisible', 'one-rank', 'no-mpi', 'scan']
FAULTS = ['rank delays (scheduler weights)']
STATES = 'distinct (ranks, call, length) triples'
RULE = ('1-16 ranks make the same random sequence of split / merge / broadcast / master-only '
        '/ scan calls; nontrivial if more than one rank took part.')


ODD = [None, 0, False, '', (), {}, 0.0, b'', 'x', {'a': [1, None]}, -1, (None,)]


def gen(rng, i, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7] if rng.random() < 0.96 else [11, 13, 16])
    ops = []
    for _ in range(rng.randint(1, 7)):
        op = rng.choice(['split', 'split', 'split', 'size', 'size', 'roundtrip', 'roundtrip',
                         'bcast', 'master', 'barrier', 'master_merge'])
        ln = rng.choice([0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, rng.randint(0, 5 * n),
                         rng.randint(0, 60)])
        ops.append({'op': op, 'n': max(0, ln), 'kind': rng.choice(['int', 'str', 'list', 'mix']),
                    'tuple': rng.random() < 0.2, 'x': rng.randint(0, 999)})
        if op == 'bcast' and rng.random() < 0.5:
            ops[-1]['odd'] = [rng.randrange(len(ODD)), rng.randrange(len(ODD))]
    if rng.random() < 0.25:
        ops.insert(rng.randint(0, len(ops)), {'op': 'scan', 'n': rng.randint(1, 2 * n + 3)})
    return {'ranks': n, 'no_mpi': n == 1 and rng.random() < 0.5, 'ops': ops, 'faults': [],
            'weights': [rng.choice([1.0, 1.0, 0.05, 10.0]) for _ in range(n)],
            's': G.mkm(rng, ['co_ads', 'co_ox'])}


def simpler(plan):
    import copy
    if plan['ranks'] > 2:
        p = copy.deepcopy(plan)
        p['ranks'] -= 1
        yield p
    for i, o in enumerate(plan['ops']):
        if o['n'] > 0:
            p = copy.deepcopy(plan)
            p['ops'][i]['n'] -= 1
            yield p


def nontrivial(res):
    return res['counters'].get('context_switches', 0) > 0


def sequence(o):
    f = {'int': lambda j: j * 3 + o['x'], 'str': lambda j: 's%d' % j,
         'list': lambda j: [j, 'x'],
         'mix': lambda j: [None, j, 'y', (j,), 0, []][j % 6]}[o['kind']]
    seq = [f(j) for j in range(o['n'])]
    return tuple(seq) if o['tuple'] else seq


def energies(s, j):
    return {'Gaf': [round(x + 0.01 * j, 6) for x in G.explicit(s['energies'])['Gaf']],
            'Gar': G.explicit(s['energies'])['Gar'], 'dG': s['energies']['dG']}


def run(plan, sim, env):
    n = plan['ranks']
    effects = []

    def job(node):
        mc = node.mod('scaks.mpicommons')
        mpi, out = mc.mpi, []

        @mc.master_only
        def effect(k, tag='-'):
            effects.append((k, node.rank, tag))
            return ('done', k)
        model = None
        for k, o in enumerate(plan['ops']):
            op = o['op']
            sim.event('op', node.rank, k, op, o['n'])
            if op == 'split':
                out.append(mpi.split_seq(sequence(o)))
            elif op == 'size':
                out.append(mpi.split_size(o['n']))
            elif op == 'roundtrip':
                part = mpi.split_seq(sequence(o))
                out.append(mpi.merge_seq([[x] for x in part]))
            elif op == 'bcast':
                mine = sequence(dict(o, x=o['x'] + node.rank, n=o['n'] + node.rank))
                if 'odd' in o:
                    mine = ODD[o['odd'][min(1, node.rank)]]
                out.append(mpi.bcast(mine))
            elif op == 'master':
                out.append(effect(k, tag='kw'))
            elif op == 'master_merge':
                effect(k, tag='kw')
                out.append(mpi.merge_seq([node.rank, 'r']))
            elif op == 'barrier':
                mpi.barrier()
                out.append(None)
            elif op == 'scan':
                if model is None:
                    model = G.build(node, plan['s'], env)
                vals = []
                for j in mpi.split_seq(list(range(o['n']))):
                    kf, kr = model.solver.get_rate_constants(
                        relative_energies=energies(plan['s'], j))
                    vals.append((j, [str(x) for x in kf], [str(x) for x in kr]))
                out.append(mpi.merge_seq(vals))
        ident = (mpi.rank, mpi.size, mpi.is_master)
        return ident, out

    # the serial job
    ref_node = env.node()
    with ref_node:
        eff0 = effects
        _, ref = job(ref_node)
        serial_effects = list(effects)
        del effects[:]
    env.stop()
    env.clear()
    if n == 1:
        node = env.node(with_mpi=not plan['no_mpi'])
        with node:
            results = [job(node)]
        sim.probes['no-mpi' if plan['no_mpi'] else 'one-rank'] += 1
    else:
        world, nodes = env.world(n)
        tasks = env.parallel([(x, job) for x in nodes], 'calls of %d ranks' % n)
        if tasks is None:
            return
        results = [t.result for t in tasks]
    for r, (ident, _) in enumerate(results):
        sim.check(ident == (r, n, r == 0), 'identity', 'rank %d of %d sees %s' % (r, n, ident))
    outs = [o for _, o in results]
    for k, o in enumerate(plan['ops']):
        got = [x[k] for x in outs]
        op = o['op']
        sim.state(n, op, o['n'])
        if op in ('split', 'roundtrip', 'scan', 'size'):
            if o['n'] < n:
                sim.probes['shorter-than-ranks'] += 1
            if o['n'] == 0:
                sim.probes['empty-sequence'] += 1
            if o['n'] % n:
                sim.probes['not-divisible'] += 1
        with sim.judging(op):
            if op == 'split':
                seq = sequence(o)
                parts = [list(x) for x in got]
                sim.check(sum(parts, []) == list(seq), 'split-incomplete',
                          '%d elements over %d ranks: parts %s' % (o['n'], n, parts))
                sizes = [len(x) for x in parts]
                sim.check(max(sizes) - min(sizes) <= 1, 'split-unbalanced',
                          '%d elements over %d ranks: part sizes %s' % (o['n'], n, sizes))
            elif op == 'size':
                sim.check(sum(got) == o['n'] and max(got) - min(got) <= 1 and min(got) >= 0,
                          'split-size', '%d over %d ranks: %s' % (o['n'], n, got))
            elif op == 'roundtrip':
                want = [[x] for x in sequence(o)]
                for r, g in enumerate(got):
                    sim.check(list(g) == want, 'merge', 'rank %d merged %s, serial %s' % (
                        r, g, want))
            elif op == 'bcast':
                want = ODD[o['odd'][0]] if 'odd' in o else sequence(o)
                for r, g in enumerate(got):
                    sim.check(g == want and type(g) is type(want), 'bcast',
                              'rank %d received %r, master sent %r' % (r, g, want))
            elif op in ('master', 'master_merge'):
                eff = [(r, t) for kk, r, t in effects if kk == k]
                sim.check(eff == [(0, 'kw')], 'master-only',
                          'effects of one call on %d ranks: %s' % (n, eff))
                if op == 'master':
                    sim.check(got[0] == ('done', k), 'master-value',
                              'master-only function returned %r' % (got[0],))
                else:
                    want = [x for r in range(n) for x in (r, 'r')]
                    for g in got:
                        sim.check(list(g) == want, 'merge', 'merged %s, expected %s' % (g, want))
            elif op == 'scan':
                sim.probes['scan'] += 1
                for r, g in enumerate(got):
                    sim.check(list(g) == list(ref[k]), 'scan',
                              'rank %d: the parallel scan differs from the serial one' % r)
