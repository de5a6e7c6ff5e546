"""C12 - see DESIGN.md."""
from checks import _newton as N
from simkit import gen as G, mkm
from simkit.refmodel import Ref, close_list, num

ID = 'C12'
RUNS = {'quick': 700, 'thorough': 14000}
STEP_LIMIT = 12000000
REAL, STUBS = N.REAL, N.STUBS
ASSUMPTIONS = ['Well-conditioned systems that have a physical steady state.',
               'Rates are compared with a reference written from mass action and transition '
               'state theory.']
PROBES = ['garbage-guess', 'retried', 'good-guess', 'unphysical-guess', 'iteration-limit',
          'constrained-newton', 'explicit-energies', 'log-compared', 'two-sites',
          'known-solution', 'crowded-surface']
FAULTS = ['lu_singular']
STATES = 'distinct (mechanism, root finder, Newton attempts and their lengths)'
RULE = ('Random system, guesses, hybrid guesses (some unphysical) and failing linear solves; every '
        'reported state is compared with the reference; nontrivial if there was more than one '
        'attempt or an unphysical guess.')
SHRINK = ('faults', 'ops')
simpler = N.simpler


def gen(rng, i, tier):
    return N.gen(rng, i, tier, roots_nearby=True)


def nontrivial(res):
    return bool(res['probes'].get('retried') or res['probes'].get('unphysical-guess'))


def run(plan, sim, env):
    s = plan['s']

    def after(o):
        if o.exc is not None:
            if N.undefined(sim, o):
                return
            raise o.exc
        m = o.model
        with sim.judging('reported state'):
            judge(plan, sim, env, o, s, m)
    if s['rootfinding'] == 'ConstrainedNewton':
        sim.probes['constrained-newton'] += 1
    if len(s['totals']) > 1:
        sim.probes['two-sites'] += 1
    if min(s['energies']['dG']) < -0.3:
        sim.probes['crowded-surface'] += 1
    N.drive(plan, sim, env, after)


def judge(plan, sim, env, o, s, m):
    ads, gases = list(m.adsorbate_names), list(m.gas_names)
    cv = o.value[0] if o.op['op'] == 'run' else o.value
    a = N.attempts(o.events)
    sim.state(s['mech'], s['rootfinding'], tuple(a))
    if len(a) > 1:
        sim.probes['retried'] += 1
    if not a:
        sim.probes['good-guess'] += 1
    if any(x > s['maxit'] for x in a):
        sim.probes['iteration-limit'] += 1
    if o.guess is not None and not N.inside(s, ads, [num(x) for x in o.guess], num(0)):
        sim.probes['unphysical-guess'] += 1
    if o.op.get('e') is not None:
        sim.probes['explicit-energies'] += 1
    if not sim.check(cv is not None, 'no-result', o.what):
        return
    ref = Ref(s)
    ks = ref.k(o.rel)
    eps = mkm.grain(s, cv) * max(list(ks[0]) + list(ks[1])) + num(1e-30)
    mkm.converged(sim, s, ads, cv, o.rel, o.what)
    mkm.physical(sim, s, ads, cv, o.what)
    sim.check(mkm.val(list(m.solver.coverages)) == mkm.val(list(cv)), 'solver-state',
              '%s: the solver keeps other coverages than it returned' % o.what)
    big, norm = N.norms(ref, cv, ks, ads)
    errs = [m.solver.error]
    if o.op['op'] == 'run':
        errs.append(m.error)
    for err in errs:
        sim.check(big * num(1 - 1e-6) - eps <= num(err) <= norm * num(1 + 1e-6) + eps, 'wrong-error',
                  lambda: '%s: reported error %.6e, but the change rates at the reported coverages '
                  'have maximum %.6e and norm %.6e' % (o.what, float(err), float(big), float(norm)))
    if o.op['op'] == 'run':
        rf, rr = ref.rates(cv, ks, ads)
        tof = ref.tof(cv, ks, gases, ads)
        sim.check(close_list(list(m.TOFs), tof, 1e-9, eps), 'wrong-tof', lambda: '%s: %s, expected %s' % (
            o.what, [float(x) for x in m.TOFs], [float(x) for x in tof]))
        sim.check(not mkm.meaningful(s, ref, ads, cv) or close_list(list(m.reversibilities), [b / x for x, b in zip(rf, rr)], 1e-9),
                  'wrong-reversibility', o.what)
    text = (env.read('out.log') or b'').decode()
    t = N.tables(text, 'Steady State Coverages:')
    if t:
        sim.probes['log-compared'] += 1
        want = {x: '%.16e' % float(c) for x, c in zip(ads, cv)}
        sim.check(t[-1] == want, 'wrong-log', lambda: '%s: the log shows %s, returned was %s' % (
            o.what, t[-1], want))
    if o.op['op'] == 'run':
        t = N.tables(text, 'Turnover Frequencies:')
        if t:
            want = {x: '%.16e' % float(c) for x, c in zip(gases, m.TOFs)}
            sim.check(t[-1] == want, 'wrong-log', lambda: '%s: the log shows turnover frequencies '
                      '%s, reported were %s' % (o.what, t[-1], want))
