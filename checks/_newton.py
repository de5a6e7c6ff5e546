"""Shared by the checks of the steady-state solver: driver and observations."""
import math
import re

from simkit import gen as G, mkm
from simkit.core import SimAbort
from simkit.refmodel import Ref, ctx, num

REAL = ['scaks.solvers.steady_state_solver', 'scaks.solvers.rootfinding_iterators',
        'scaks.solvers.mean_field_solver', 'scaks.models.micro_kinetic_model',
        'scaks.plugins.*', 'scaks.descriptors', 'mpmath', 'scipy']
STUBS = ['hybrid method (seeded guesses), except where the default one is used', 'file operations',
         'outcome of single linear solves (injected failures)']


# -- reference steady states ------------------------------------------------------
def jacobian(ref, c, ks, ads):
    h = ctx.mpf(10) ** -40
    n = len(c)
    out = [[None] * n for _ in range(n)]
    for j in range(n):
        up, dn = [num(x) for x in c], [num(x) for x in c]
        up[j] += h
        dn[j] -= h
        a, b = ref.dtheta(up, ks, ads), ref.dtheta(dn, ks, ads)
        for i in range(n):
            out[i][j] = (a[i] - b[i]) / (2 * h)
    return out


def newton(ref, c, ks, ads, n=40):
    x = [num(v) for v in c]
    for _ in range(n):
        f = ref.dtheta(x, ks, ads)
        try:
            d = ctx.lu_solve(ctx.matrix(jacobian(ref, x, ks, ads)), -ctx.matrix(f))
        except ZeroDivisionError:
            return None
        x = [a + b for a, b in zip(x, d)]
        if max(abs(b) for b in d) < ctx.mpf(10) ** -50:
            return x
        if max(abs(v) for v in x) > 1e6:
            return None
    return None


def inside(s, ads, x, margin=1e-4):
    """Strictly physical."""
    m = G.MECHANISMS[s['mech']]
    if min(x) < margin:
        return False
    return all(sum((v for a, v in zip(ads, x) if a.rsplit('_', 1)[1] == site), num(0)) <
               num(t) - margin for site, t in zip(m['sites'], s['totals']))


def steady(s, e, rng, margin=1e-4):
    """A physical steady state by the reference; None if none is found quickly."""
    ref = Ref(s)
    ads = ref.ads
    ks = ref.k(G.explicit(e))
    for _ in range(12):
        x = newton(ref, G.guess(rng, s), ks, ads)
        if x is not None and inside(s, ads, x, margin):
            return [float(v) for v in x]
    return None


# -- generation -------------------------------------------------------------------
def odd_guess(rng, s, root):
    """Any starting point a user or a hybrid method may come up with."""
    k = rng.choice(['physical', 'physical', 'zero', 'negative', 'over', 'huge', 'full', 'root',
                    'near', 'tiny'])
    g = G.guess(rng, s)
    if k == 'zero':
        g = [0.0] * len(g)
    elif k == 'negative':
        g[rng.randrange(len(g))] = -round(rng.uniform(0, 2), 4)
    elif k == 'over':
        g = [round(x + rng.uniform(0.2, 1.2), 4) for x in g]
    elif k == 'huge':
        g = [round(rng.uniform(-50, 50), 3) for _ in g]
    elif k == 'full':
        g = [0.0] * len(g)
        g[rng.randrange(len(g))] = 1.0
    elif k == 'root' and root:
        g = list(root)
    elif k == 'near' and root:
        g = [x * (1 + rng.uniform(-1e-3, 1e-3)) for x in root]
    elif k == 'tiny':
        g = [10.0 ** -rng.randint(3, 30) for _ in g]
    return g


def crowded(rng, s):
    """Strong dissociative adsorption: hardly a free site is left, and next to the physical
    steady state lies one with slightly less than no free site."""
    s['energies']['dG'][[i for i, r in enumerate(G.MECHANISMS[s['mech']]['rxns'])
                         if '2*_' in r.split('->')[0]][0]] = -round(rng.uniform(0.35, 1.1), 3)
    s['tol'] = rng.choice([1e-6, 1e-8, 1e-8, 1e-10, 1e-12])


def gen(rng, i, tier, plugins=False, finite=False, roots_nearby=False):
    """*finite*: the hybrid method ends up with guesses next to a steady state."""
    while True:
        s = G.mkm(rng, G.MANY)
        margin = 1e-4
        if roots_nearby and rng.random() < 0.2:
            s = G.mkm(rng, ['h2_diss', 'h2_diss', 'two_site'])
            crowded(rng, s)
            margin = 1e-9
        n = len(G.MECHANISMS[s['mech']]['rxns'])
        pool = [s['energies'], G.energies(rng, n)]
        roots = [steady(s, e, rng, margin) for e in pool]
        if roots[0] is None:
            continue
        if roots[1] is None:
            pool, roots = pool[:1], roots[:1]
        break
    s['archived'] = ['steady_state_coverages'] if rng.random() < 0.5 else []
    if rng.random() < 0.2 and s['mech'] in ('co_ads', 'iso', 'h2_diss', 'two_site'):
        s['rootfinding'] = 'ConstrainedNewton'
    s['maxit'] = rng.choice([3, 5, 8, 12, 30, 60])
    if finite:
        s['maxit'] = rng.choice([12, 20, 30, 60, 100])
    garbage = [odd_guess(rng, s, roots[0]) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        j = rng.randrange(len(pool))
        op = {'op': rng.choice(['solve', 'solve', 'run']), 'j': j,
              'e': pool[j] if rng.random() < 0.4 else None,
              'how': rng.choice(['none', 'absent']), 'c': odd_guess(rng, s, roots[j])}
        if op['op'] == 'solve' and rng.random() < 0.15:
            op['c'] = None
        if op['op'] == 'solve' and rng.random() < 0.2:
            op['single'] = True
        if op['op'] == 'run':
            op['coarse'] = rng.random() < 0.3
        ops.append(op)
    if roots_nearby and rng.random() < 0.15:
        # there and back: the second time the solution is known
        a, b = rng.choice([(0, len(pool) - 1), (len(pool) - 1, 0)])
        for j in (a, b, a):
            ops.append({'op': rng.choice(['solve', 'run']), 'j': j, 'how': 'none', 'single': False,
                        'e': pool[j] if rng.random() < 0.5 else None, 'coarse': False,
                        'c': G.guess(rng, s)})
        ops[-1]['again'] = True
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        faults.append({'site': 'lu', 'at': rng.choice([0, 1, 2, 3, 5, 8, rng.randint(0, 40)]),
                       'kind': 'singular'})
    plan = {'s': s, 'pool': pool, 'roots': roots, 'ops': ops, 'faults': faults,
            'garbage': garbage, 'hybrid': 'near' if finite else 'spread',
            'par': G.hybrid(rng, s), 'plugins': []}
    if plugins:
        plan['plugins'] = [{'interval': rng.choice([1, 1, 2, 3, 4]),
                            'how': rng.choice(['class', 'class', 'derived', 'mixin'])}
                           for _ in range(rng.randint(1, 3))]
    return plan


def simpler(plan):
    for key in ('garbage', 'plugins'):
        for i in range(len(plan[key])):
            yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1:]})


# -- driver -----------------------------------------------------------------------
class Op(object):
    """What one call did: events, result or exception, model, energies."""


def session(plan, sim, env, node, events):
    s = plan['s']
    sess = mkm.Session(node, env, dict(s, hybrid=None))
    sess.raw({'op': 'build', 'level': 20})
    m = sess.model
    state = {'n': 0, 'root': plan['roots'][0]}
    order = [m.adsorbate_names.index(a) for a in m.adsorbate_names]
    names = G.MECHANISMS[s['mech']]['ads']

    def arranged(c):
        d = dict(zip(names, c))
        return tuple(d[a] for a in m.adsorbate_names)

    def hybrid(model, n):
        events.append(('hybrid', n))
        i = state['n']
        state['n'] += 1
        for f in sim.fault_for('hybrid'):
            sim.fire('hybrid_' + f['kind'])
            raise ValueError('injected')
        if i < len(plan['garbage']):
            sim.probes['garbage-guess'] += 1
            return arranged(plan['garbage'][i])
        k = i - len(plan['garbage']) - (0 if plan['hybrid'] == 'near' else 8)
        if k >= 0:
            d = 10.0 ** -min(3 + k, 15)
            return arranged([x * (1 - d) for x in state['root']])
        return arranged(G.next_guess(s, plan['par'], i))
    if plan.get('other'):
        # a second model with its own plugin is only watched
        second = mkm.Session(node, env, dict(s, hybrid=None), name='b')
        second.raw({'op': 'build', 'level': 20})
        second.model.analysis_register(plugin(sim, node, events, 'other', {'interval': 1,
                                                                            'how': 'class'}))
        sess.second = second
    if plan['hybrid'] == 'none':
        m.hybrid_method = None
    elif plan['hybrid'] == 'default':
        default = m.hybrid_method

        def observed(model, n):
            events.append(('hybrid', n))
            return default(model, n)
        m.hybrid_method_register(observed)
    else:
        m.hybrid_method_register(hybrid)
    for i, p in enumerate(plan['plugins']):
        m.analysis_register(plugin(sim, node, events, i, p))
    sess.arranged, sess.state = arranged, state
    return sess


HOOKS = ('setup', 'register_step', 'finalize')


def plugin(sim, node, events, tag, p):
    base = node.mod('scaks.plugins.analysis').OnTheFlyAnalysis

    def fails(site):
        for f in sim.fault_for(site):
            sim.fire('plugin_' + f['kind'])
            events.append(('raise', site, tag))
            raise ValueError('injected')

    def setup(self, model, outer_counter):
        events.append(('setup', tag, outer_counter, model))
        fails('setup')

    def register_step(self, model, inner_counter, outer_counter):
        events.append(('step', tag, inner_counter, outer_counter, model,
                       list(model.solver.coverages), model.solver.error))
        fails('step')

    def finalize(self, model, outer_counter):
        events.append(('fin', tag, outer_counter, model))
        fails('finalize')
    hooks = {f.__name__: f for f in (setup, register_step, finalize)
             if f.__name__ in p.get('hooks', HOOKS)}
    own = {k: f for k, f in hooks.items() if p['how'] == 'class' or k in p.get('own', ())}
    rest = {k: f for k, f in hooks.items() if k not in own}
    own['interval'] = p['interval']
    if p['how'] == 'class':
        return type(base)('Rec', (base,), own)
    if p['how'] == 'mixin':
        return type(base)('Mixed', (type('Calls', (object,), rest), base), own)
    return type(base)('Derived', (type(base)('First', (base,), rest),), own)


def drive(plan, sim, env, after):
    """Executes the operations; calls *after(op)* for each."""
    s = plan['s']
    with mkm.linear_solves(sim) as lu, mkm.integrations(sim) as ode:
        node = env.node()
        with node:
            events = lu['sink']
            sess = session(plan, sim, env, node, events)
            cur = None
            results = {}
            for i, op in enumerate(plan['ops']):
                j = min(op['j'], len(plan['pool']) - 1)
                if op.get('e') is None and cur != j:
                    sess.raw({'op': 'load', 'e': plan['pool'][j]})
                    cur = j
                sess.state['root'] = plan['roots'][j]
                del events[:]
                o = Op()
                o.i, o.op, o.plan, o.sess, o.model = i, op, plan, sess, sess.model
                o.lu, o.ode = lu, ode
                if op.get('e') is not None:
                    o.rel = G.explicit(op['e'])
                else:
                    o.rel = Ref.relative(plan['pool'][j])
                o.what = 'operation %d (%s)' % (i, op['op'])
                o.guess = sess.arranged(op['c']) if op.get('c') is not None else None
                if op.get('again') and j in results:
                    sim.probes['known-solution'] += 1
                    o.guess = results[j]
                o.hybrids0 = sess.state['n']
                o.exc = o.value = None
                o.fired0 = sum(sim.fired.values())
                sim.event('op', i, op['op'])
                q = dict(op, c=list(o.guess) if o.guess is not None else None)
                try:
                    o.value = sess.raw(q)
                except SimAbort:
                    raise
                except Exception as e:
                    o.exc = e
                if o.value is not None and op['op'] in ('solve', 'run'):
                    results[j] = tuple((o.value[0] if op['op'] == 'run' else o.value) or ())
                    if not results[j]:
                        del results[j]
                o.events = list(events)
                o.fired = sum(sim.fired.values()) - o.fired0
                after(o)
                if sim.violations:
                    return


# -- the log ------------------------------------------------------------------------
def tables(text, title):
    """Number tables of the log, newest last: list of {name: text of the value}."""
    out = []
    for part in text.split(title)[1:]:
        rows = {}
        dashes = 0
        for line in part.splitlines():
            if re.match(r'^-{20,}$', line):
                dashes += 1
                if dashes == 2:
                    break
                continue
            f = line.split()
            if dashes == 1 and len(f) == 3:
                rows[f[1]] = f[2]
        out.append(rows)
    return out


def attempts(events):
    """Successful linear solves per Newton attempt, in order."""
    out, cur = [], None
    for e in events:
        if e[0] == 'lu':
            cur = (cur or 0) + (1 if e[1] else 0)
        elif e[0] == 'hybrid':
            if cur is not None:
                out.append(cur)
            cur = None
    if cur is not None:
        out.append(cur)
    return out


def norms(ref, c, ks, ads):
    d = ref.dtheta(c, ks, ads)
    return max(abs(x) for x in d), ctx.sqrt(sum(x * x for x in d))


def undefined(sim, o):
    """run() cannot give reversibilities of a state in which a reaction has no forward rate."""
    if not (isinstance(o.exc, ZeroDivisionError) and o.op['op'] == 'run'):
        return False
    with sim.judging('reversibilities'):
        ref = Ref(o.plan['s'])
        rf, rr = ref.rates(o.model.solver.coverages, ref.k(o.rel), list(o.model.adsorbate_names))
        if min(abs(x) for x in rf) == 0:
            sim.probes['poisoned-surface'] += 1
            return True
    return False
