"""C10 - see DESIGN.md."""
import copy

from simkit import gen as G, mkm
from simkit.core import SimAbort

ID = 'C10'
RUNS = {'quick': 420, 'thorough': 9000}
STEP_LIMIT = 30000000
REAL = ['scaks.models.*', 'scaks.solvers.*', 'scaks.parsers.*', 'scaks.descriptors',
        'scaks.correctors', 'scaks.plugins', 'mpmath', 'scipy']
STUBS = ['file operations', 'hybrid method (deterministic guesses)']
ASSUMPTIONS = ['The models of a process share its log and, if a result is archived, its archive '
               'file; they are isolated in everything else.']
PROBES = ['same-mechanism', 'same-energies', 'different-precision', 'nested', 'dropped',
          'edited-setup', 'plugins', 'solved-under-other-precision', 'identical-set-up']
FAULTS = ['interleaving (each operation chooses whose turn it is; from inside plugin callbacks)']
STATES = 'distinct interleavings of the sessions'
RULE = ('2-3 sessions, each first alone in a fresh process, then interleaved in one process; '
        'nontrivial if at least two sessions alternated.')


def script(rng, s, other_c):
    e1 = s['energies']
    e2 = G.energies(rng, len(e1['Ga']))
    e3 = G.energies(rng, len(e1['Ga']))
    ops = [{'op': 'build'}]
    if rng.random() < 0.3:
        ops.append({'op': 'info'})
    if rng.random() < 0.35:
        ops.append({'op': 'plugin', 'interval': rng.choice([1, 1, 2, 3])})
        if rng.random() < 0.4:
            ops[-1].update(common=True, interval=1)
    ops.append({'op': rng.choice(['load', 'load', 'loadfile']), 'e': e1})

    def e():
        x = rng.random()
        return None if x < 0.6 else copy.deepcopy(e1 if x < 0.7 else e2)

    def how():
        return rng.choice(['none', 'none', 'absent'])
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(['k', 'k', 'rates', 'tof', 'resid', 'jac', 'jac', 'dtheta', 'rev', 'solve',
                        'solve', 'run', 'xrc', 'coarse', 'edit', 'edit', 'info', 'load',
                        'energies', 'records', 'correct', 'query', 'net', 'new'])
        if k == 'new':
            ops.append({'op': rng.choice(['newsolver', 'newcorrector'])})
            continue
        op = {'op': k, 'e': e(), 'how': how()}
        if k in ('rates', 'tof', 'resid', 'jac', 'dtheta', 'rev', 'coarse', 'net'):
            op['c'] = other_c if rng.random() < 0.5 else G.guess(rng, s)
        elif k in ('solve', 'run'):
            op['c'] = G.guess(rng, s)
            if k == 'run' and rng.random() < 0.3:
                op['coarse'] = True
        elif k == 'xrc':
            if rng.random() < 0.5:
                continue
            op['gas'] = rng.choice(sorted(s['pressure']))
            op['eps'] = 1e-3
        elif k == 'load':
            op['e'] = e3
        elif k == 'edit':
            op = {'op': 'edit', 'what': rng.choice(['pressure', 'total', 'rxns', 'rxns-reverse',
                                                    'clear', 'T']), 'x': 0.3}
        elif k == 'correct':
            op['method'] = rng.choice(['shomate', 'entropy'])
        elif k == 'energies':
            op = {'op': 'energies'}
        ops.append(op)
        if op['op'] == 'edit':
            ops.append({'op': 'info'})
    ops += [{'op': 'k', 'e': None, 'how': how()}, {'op': 'info'}, {'op': 'records'}]
    if rng.random() < 0.4:
        ops.insert(rng.randint(len(ops) // 2, len(ops)), {'op': 'drop'})
        cut = [o['op'] for o in ops].index('drop') + 1
        if rng.random() < 0.5:
            again = [{'op': 'build'}, {'op': 'load', 'e': e3},
                     {'op': 'k', 'e': None, 'how': how()},
                     {'op': 'jac', 'c': other_c, 'e': None, 'how': 'none'},
                     {'op': 'info'}]
            ops = ops[:cut] + again
        else:
            ops = ops[:cut]
    return ops


def gen(rng, i, tier):
    n = rng.choice([2, 2, 2, 3])
    mechs = G.MANY
    first = G.mkm(rng, mechs)
    ss = [first]
    for _ in range(n - 1):
        s = G.mkm(rng, [first['mech']] if rng.random() < 0.7 else mechs)
        if s['mech'] == first['mech']:
            if rng.random() < 0.5:
                s['energies'] = copy.deepcopy(first['energies'])
            if rng.random() < 0.3:
                s['T'] = first['T']
            if rng.random() < 0.3:
                s['totals'] = list(first['totals'])
            if rng.random() < 0.3:
                s['dps'] = first['dps']
            if rng.random() < 0.3:
                s['pressure'] = dict(first['pressure'])
            if rng.random() < 0.05:
                s = copy.deepcopy(first)
        ss.append(s)
    for s in ss:
        s['archived'] = []
        G.collisions(rng, s, 0.12)
        s['tol'] = rng.choice([1e-8, 1e-10, 1e-12])
        s['hybrid'] = G.hybrid(rng, s)
        if rng.random() < 0.25 and s['mech'] in ('co_ads', 'iso'):
            s['rootfinding'] = 'ConstrainedNewton'
    cs = {}
    scripts = []
    for s in ss:
        c = cs.setdefault(s['mech'], G.guess(rng, s))
        scripts.append(script(rng, s, c))
    return {'s': ss, 'ops': [{'m': j, **op} for j, sc in enumerate(scripts) for op in sc],
            'nest': [rng.random() < 0.3 for _ in ss],
            'weights2': rng.choice([None, 1]), 'faults': []}


def simpler(plan):
    for j in range(len(plan['nest'])):
        if plan['nest'][j]:
            p = copy.deepcopy(plan)
            p['nest'][j] = False
            yield p


def nontrivial(res):
    return res['counters'].get('alternations', 0) > 0


def scripts_of(plan):
    return [[o for o in plan['ops'] if o['m'] == j] for j in range(len(plan['s']))]


def perform(sess, op):
    if sess.model is None and op['op'] != 'build':
        return ('gone',)
    return sess.do(op)


def run(plan, sim, env):
    scripts = scripts_of(plan)
    want = []
    with mkm.linear_solves(sim):
        for j, sc in enumerate(scripts):
            node = env.node()
            with node:
                sess = mkm.Session(node, env, plan['s'][j], 'm%d' % j)
                want.append([('ok', None) if op['op'] == 'edit' and sess.model is not None
                             else perform(sess, op) for op in sc])
            env.stop()
            env.clear()
        node = env.node()
        with node:
            got = interleaved(plan, sim, env, node, scripts)
    ms = [s['mech'] for s in plan['s']]
    if len(set(ms)) < len(ms):
        sim.probes['same-mechanism'] += 1
    es = [str(s['energies']) for s in plan['s']]
    if len(set(es)) < len(es):
        sim.probes['same-energies'] += 1
    if len({s['dps'] for s in plan['s']}) > 1:
        sim.probes['different-precision'] += 1
    if plan['s'][0] == plan['s'][-1]:
        sim.probes['identical-set-up'] += 1
    for j, sc in enumerate(scripts):
        for i, op in enumerate(sc):
            sim.event('result', j, i, op['op'], hash(str(want[j][i])) if False else
                      str(want[j][i])[:80])
            a, b = want[j][i], got[j][i]
            sim.check(a == b, 'leak:' + op['op'],
                      lambda: 'session %d (%s), operation %d %s: alone %s, with the others %s'
                      % (j, plan['s'][j]['mech'], i,
                         {k: v for k, v in op.items() if k != 'm'}, str(a)[:700], str(b)[:700]))


def interleaved(plan, sim, env, node, scripts):
    sessions = [mkm.Session(node, env, s, 'm%d' % j) for j, s in enumerate(plan['s'])]
    for x in sessions:
        x.common = sessions[0].common
    pos = [0] * len(scripts)
    busy = [False] * len(scripts)
    got = [[None] * len(sc) for sc in scripts]
    last = [None]
    order = []

    def ready():
        return [j for j in range(len(scripts)) if not busy[j] and pos[j] < len(scripts[j])]

    def step(j):
        i = pos[j]
        op = scripts[j][i]
        pos[j] += 1
        busy[j] = True
        order.append(j)
        if last[0] is not None and last[0] != j:
            sim.counters['alternations'] += 1
        last[0] = j
        sim.event('turn', j, i, op['op'])
        got[j][i] = perform(sessions[j], op)
        if op['op'] == 'drop':
            sim.probes['dropped'] += 1
        elif op['op'] == 'edit':
            sim.probes['edited-setup'] += 1
        elif op['op'] == 'plugin':
            sim.probes['plugins'] += 1
        busy[j] = False

    def nested(sess):
        j = sessions.index(sess)
        if not plan['nest'][j]:
            return
        for _ in range(3):
            r = ready()
            if not r or sim.choose(2):
                return
            sim.probes['nested'] += 1
            step(r[sim.choose(len(r))])
    for s in sessions:
        s.on_step = nested
    while True:
        r = ready()
        if not r:
            break
        step(r[sim.choose(len(r))])
    sim.state(tuple(order))
    return got
