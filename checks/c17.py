"""C17 - see DESIGN.md."""
from simkit import gen as G, kgen

ID = 'C17'
RUNS = {'quick': 700, 'thorough': 12000}
REAL = ['scaks.models.kinetic_model', 'scaks.models.micro_kinetic_model',
        'scaks.models.kmc_model', 'scaks.solvers.*', 'logging']
STUBS = ['mpi4py', 'console stream (captured)', 'KMCLib', 'file operations']
ASSUMPTIONS = ['Models of one process share one log; the levels of the model built last, or '
               'set last, are in force.']
PROBES = ['third-model', 'mixed-model-types', 'level-changed', 'foreign-root-handler',
          'foreign-model-handler', 'parallel', 'discarded-model', 'solved']
FAULTS = ['short_write', 'rank delays (scheduler weights)']
STATES = 'distinct (models so far, level, file level, console level) tuples'
RULE = ('Models are built, used, dropped and their output levels changed in random order; '
        'nontrivial if at least one record was written.')
LEVELS = [10, 20, 30, 40]


def gen(rng, i, tier):
    n = rng.choice([1, 1, 1, 1, 2, 3])
    s = [G.mkm(rng, ['co_ads', 'co_ox', 'iso'], precision=30) for _ in range(2)]
    ks, eng = kgen.system(rng, analysis=['CoveragesAnalysis'], max_steps=5)
    ops, built = [], 0
    for _ in range(rng.randint(3, 12)):
        op = rng.choice(['build', 'build', 'emit', 'emit', 'emit', 'level', 'foreign', 'drop',
                         'use', 'component'])
        if built == 0 or op == 'build':
            ops.append({'op': 'build', 'kmc': n == 1 and rng.random() < 0.3,
                        's': rng.randint(0, 1), 'level': rng.choice(LEVELS[:3]),
                        'file': rng.choice([None, 10, 20, 30, 40]),
                        'console': rng.choice([None, 10, 20, 30, 40])})
            built += 1
            continue
        ops.append({'op': op, 'm': rng.randint(0, built - 1), 'level': rng.choice(LEVELS),
                    'h': rng.choice(['FileHandler', 'StreamHandler']),
                    'where': rng.choice(['root', 'model'])})
    return {'ranks': n, 's': s, 'k': ks, 'engine': eng, 'ops': ops,
            'weights': [rng.choice([1.0, 0.05, 8.0]) for _ in range(n)],
            'faults': [{'site': 'write', 'at': rng.randint(0, 60), 'kind': 'short',
                        'frac': 0.5}] if rng.random() < 0.2 else []}


def nontrivial(res):
    return res['events'] > 20


def run(plan, sim, env):
    kgen.files(plan['k'], env)
    if plan['ranks'] == 1:
        node = env.node()
        with node:
            log = job(plan, sim, env, node)
        judge(plan, sim, env, node, log, 'out.log')
        return
    sim.probes['parallel'] += 1
    world, nodes = env.world(plan['ranks'])
    tasks = env.parallel([(x, lambda nd: job(plan, sim, env, nd)) for x in nodes])
    if tasks is None:
        return
    for t in tasks:
        judge(plan, sim, env, t.node, t.result, 'log/out_%d.log' % t.idx)


def job(plan, sim, env, node):
    """Performs the operations; returns what must have been written."""
    logging = node.mod('logging')
    records = []             # (message, level, in file?, on console?)
    now = {'file': 10, 'console': 20}
    foreign = []

    class Capture(logging.Handler):
        """Installed by the surrounding program: sees every record once."""

        def emit(self, rec):
            msg = rec.getMessage()
            records.append((msg, rec.levelno, rec.levelno >= now['file'],
                            rec.levelno >= now['console']))
    capture = Capture()
    logging.root.addHandler(capture)

    class Foreign(logging.Handler):
        def __init__(self):
            logging.Handler.__init__(self)
            self.seen = []

        def emit(self, rec):
            self.seen.append(rec.getMessage())
    models, tokens, nbuilt = [], [], 0
    level = 20
    last = None
    for k, o in enumerate(plan['ops']):
        op = o['op']
        sim.event('op', node.rank, op)
        if op == 'build':
            level = o['level']
            kw = {'logger_level': level}
            now['file'], now['console'] = 10, 20
            for a, b in (('file', 'file_handler_level'), ('console', 'console_handler_level')):
                if o[a] is not None:
                    now[a] = kw[b] = o[a]
            if not o['kmc'] and node.rank != 0:
                now['console'] = 30
            if o['kmc']:
                M = node.mod('scaks.models.kmc_model').KMCModel
                m = G.construct(M, kgen.setup_dict(plan['k']), env, plan['k'],
                                'setup_%d.mkm' % node.rank, **kw)
            else:
                M = node.mod('scaks.models.micro_kinetic_model').MicroKineticModel
                m = G.construct(M, G.setup_dict(plan['s'][o['s']]), env, plan['s'][o['s']],
                                'setup_%d.mkm' % node.rank, **kw)
            if last is not None and last != o['kmc']:
                sim.probes['mixed-model-types'] += 1
            last = o['kmc']
            models.append((m, o))
            nbuilt += 1
            if nbuilt >= 3:
                sim.probes['third-model'] += 1
            sim.state(nbuilt, level, now['file'], now['console'])
            continue
        m, mo = models[o['m'] % len(models)]
        tok = 'token-%d-%d-end' % (node.rank, k)
        if op == 'emit' and m is not None:
            m.logger.log(o['level'], tok)
            tokens.append((tok, o['level'], level, now['file'], now['console'],
                           [f for f in foreign]))
        elif op == 'component':
            logging.getLogger('model.solvers.Anything').log(o['level'], tok)
            tokens.append((tok, o['level'], level, now['file'], now['console'],
                           [f for f in foreign]))
        elif op == 'level' and m is not None:
            m.set_logger_level(o['h'], o['level'])
            now['file' if o['h'] == 'FileHandler' else 'console'] = o['level']
            sim.probes['level-changed'] += 1
        elif op == 'foreign':
            f = Foreign()
            logging.getLogger(None if o['where'] == 'root' else 'model').addHandler(f)
            foreign.append(f)
            sim.probes['foreign-%s-handler' % o['where']] += 1
        elif op == 'drop' and m is not None and len(models) > 1:
            models[o['m'] % len(models)] = (None, mo)
            sim.probes['discarded-model'] += 1
        elif op == 'use' and m is not None:
            if mo['kmc']:
                kgen.load(m)
            else:
                m.parser.parse_data(energy_data=plan['s'][mo['s']]['energies'])
                m.solver.get_data()
                m.solver.get_rate_constants(
                    relative_energies=G.explicit(plan['s'][mo['s']]['energies']), log=True)
            sim.probes['solved'] += 1
    for f in foreign:
        lg = [logging.root, logging.getLogger('model')]
        sim.check(any(f in x.handlers for x in lg), 'foreign-handler',
                  'a handler of the surrounding program was removed')
    return {'records': records, 'tokens': tokens, 'capture': capture in logging.root.handlers}


def judge(plan, sim, env, node, log, name):
    text = env.read(name)
    console = node.stderr.getvalue()
    sim.check(log['capture'], 'foreign-handler',
              'a handler of the surrounding program was removed')
    if not sim.check(text is not None, 'log-missing', '%s does not exist' % name):
        return
    with sim.judging(name):
        text = text.decode()
        for tok, lv, lg, fl, cl, fs in log['tokens']:
            inf, con = text.count(tok), console.count(tok)
            want = int(lv >= lg and lv >= fl)
            sim.check(inf == want, 'file-count', '%s (level %d, model level %d, file level %d) is '
                      '%d times in %s, should be %d' % (tok, lv, lg, fl, inf, name, want))
            want = int(lv >= lg and lv >= cl)
            sim.check(con == want, 'console-count', '%s (level %d, model level %d, console level '
                      '%d) is %d times on the console, should be %d' % (tok, lv, lg, cl, con, want))
            for f in fs:
                n = sum(1 for x in f.seen if x == tok)
                sim.check(n == int(lv >= lg), 'foreign-count', 'a handler of the surrounding '
                          'program saw %s %d times' % (tok, n))
        for what, out, idx in ((name, text, 2), ('console', console, 3)):
            pos, lines = 0, 0
            for rec in log['records']:
                if not rec[idx]:
                    continue
                lines += rec[0].count('\n') + 1
                p = out.find(rec[0], pos)
                if not sim.check(p >= 0, 'record-missing', 'a record is missing from %s (or out '
                                 'of order): %r' % (what, rec[0][:100])):
                    break
                pos = p + len(rec[0])
            else:
                n = out.count('\n')
                sim.check(n == lines, 'record-count', '%s has %d lines, %d were emitted for it' % (
                    what, n, lines))
