"""C15 - see DESIGN.md."""
from checks import _newton as N
from simkit import gen as G, mkm
from simkit.refmodel import Ref, num

ID = 'C15'
RUNS = {'quick': 800, 'thorough': 14000}
STEP_LIMIT = 6000000
REAL, STUBS = N.REAL, N.STUBS
ASSUMPTIONS = ['Well-conditioned systems that have a physical steady state.',
               'A step is a call or loop iteration of the code under test; a run that needs more '
               'than the budget is counted as endless.',
               'After the last disturbance the guesses lie next to a steady state (or the default '
               'hybrid method integrates towards one).']
PROBES = ['garbage-guess', 'retried', 'limit', 'no-hybrid', 'gave-up', 'default-hybrid',
          'constrained-newton', 'explicit-energies', 'nothing-loaded', 'stalled-integrator',
          'rate-control', 'many-failures', 'good-guess']
FAULTS = ['lu_singular', 'ode_stall']
STATES = 'distinct (mechanism, root finder, Newton attempts and their lengths)'
RULE = ('Finitely many failing linear solves, bad guesses and stalled integrations, then good '
        'conditions; nontrivial if a disturbance struck.')
SHRINK = ('faults', 'ops')
simpler = N.simpler
EXTRA = 6


def gen(rng, i, tier):
    plan = N.gen(rng, i, tier, finite=True)
    s = plan['s']
    r = rng.random()
    if r < 0.12:
        plan['hybrid'] = 'none'
        for op in plan['ops']:
            if op['op'] == 'run' or op['c'] is None:
                op.update(op='solve', c=N.odd_guess(rng, s, plan['roots'][0]))
    elif r < 0.2:
        plan['hybrid'] = 'default'
        plan['ops'] = plan['ops'][:1]
        op = plan['ops'][0]
        y = rng.random()
        op['c'] = G.guess(rng, s) if y < 0.5 else None
        if y > 0.75:
            op['c'] = N.odd_guess(rng, s, plan['roots'][op['j']])
        op['single'] = False
        if rng.random() < 0.6:
            op['e'] = plan['pool'][op['j']]
    if rng.random() < 0.15:
        plan['faults'] += [{'site': 'lu', 'at': k, 'kind': 'singular'}
                           for k in range(rng.randint(2, 12))]
    if rng.random() < 0.15:
        span = 10.0 ** rng.uniform(-9, -3)
        plan['ops'].insert(rng.randint(0, len(plan['ops'])),
                           {'op': 'ode', 'j': 0, 'e': plan['pool'][0], 'c': G.guess(rng, s),
                            'span': span, 'end': span * rng.randint(1, 20)})
        if rng.random() < 0.8:
            plan['faults'].append({'site': 'ode', 'at': rng.randint(0, 12), 'kind': 'stall'})
    if plan['hybrid'] == 'near' and rng.random() < 0.1:
        for op in plan['ops']:
            if op['op'] == 'run':
                op.update(XRC=True, product_name=rng.choice(sorted(s['pressure'])),
                          epsilon=rng.choice([1e-2, 1e-3]))
    return plan


def nontrivial(res):
    return bool(res['fired'] or res['probes'].get('garbage-guess') or res['probes'].get('retried'))


def run(plan, sim, env):
    s = plan['s']
    if s['rootfinding'] == 'ConstrainedNewton':
        sim.probes['constrained-newton'] += 1
    sim.left = len(plan['garbage'])

    def after(o):
        if o.exc is not None:
            if N.undefined(sim, o):
                return
            raise o.exc
        with sim.judging('end of the solution'):
            judge(plan, sim, o, s)
    if sum(1 for f in plan['faults'] if f['site'] == 'lu') > 4:
        sim.probes['many-failures'] += 1
    if plan['hybrid'] == 'default':
        sim.probes['default-hybrid'] += 1
    N.drive(plan, sim, env, after)


def judge(plan, sim, o, s):
    a = N.attempts(o.events)
    sim.state(s['mech'], s['rootfinding'], tuple(a))
    if o.op['op'] == 'ode':
        if o.ode.get('stalled'):
            sim.probes['stalled-integrator'] += 1
            o.ode['stalled'] = False
        sim.check(o.value is not None and len(o.value) == 2, 'no-result', o.what)
        return
    if len(a) > 1:
        sim.probes['retried'] += 1
    if not a:
        sim.probes['good-guess'] += 1
    if o.op.get('e') is not None:
        sim.probes['explicit-energies'] += 1
        if not any(p.get('e') is None for p in plan['ops']):
            sim.probes['nothing-loaded'] += 1
    if o.op.get('XRC'):
        sim.probes['rate-control'] += 1          # several solutions
        return
    if any(n == s['maxit'] + 1 for n in a):
        sim.probes['limit'] += 1
    sim.check(all(n <= s['maxit'] + 1 for n in a), 'iteration-limit', lambda: '%s: attempts of %s '
              'iterations, the limit is %d' % (o.what, a, s['maxit']))
    cv = o.value[0] if o.op['op'] == 'run' else o.value
    bad = sum(1 for e in o.events if e[0] == 'lu' and not e[1])
    if plan['hybrid'] == 'none':
        sim.probes['no-hybrid'] += 1
        if cv is None:
            sim.probes['gave-up'] += 1
        after = 0
        for e in o.events:
            after += e[0] == 'lu' and (after > 0 or not e[1])
        sim.check(after <= 1, 'went-on', lambda: '%s: %d linear solves after one failed, without a '
                  'way to make new guesses' % (o.what, after - 1))
        sim.check(len(a) <= 1, 'went-on', lambda: '%s: %d attempts without a way to make new '
                  'guesses' % (o.what, len(a)))
        return
    if not sim.check(cv is not None, 'no-result', '%s gave up' % o.what):
        return
    mkm.converged(sim, s, list(o.model.adsorbate_names), cv, o.rel, o.what)
    if plan['hybrid'] == 'near':
        left = max(0, len(plan['garbage']) - o.hybrids0)
        sim.check(len(a) <= 1 + left + bad + EXTRA, 'too-many-attempts', lambda: '%s: %d attempts '
                  'after %d bad guesses and %d failed linear solves' % (o.what, len(a), left, bad))
    else:
        sim.check(len(a) <= 1 + bad + EXTRA, 'too-many-attempts', lambda: '%s: %d attempts with %d '
                  'failed linear solves' % (o.what, len(a), bad))
