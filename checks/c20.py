"""C20 - see DESIGN.md."""
import contextlib
import copy
import math
import warnings

import numpy as np

from checks.c11 import absolute, rel_from_abs
from simkit import gen as G, mkm, thermo
from simkit.core import GaveUp, SimAbort
from simkit.refmodel import KB, Ref, num

ID = 'C20'
RUNS = {'quick': 1500, 'thorough': 30000}
STEP_LIMIT = 30000000
REAL = ['scaks.solvers.steady_state_solver', 'scaks.solvers.mean_field_solver',
        'scaks.models.micro_kinetic_model', 'scaks.plugins.hybrid_methods', 'scaks.parsers.*',
        'scaks.correctors', 'scipy.integrate.ode']
STUBS = ['file operations', 'clock', 'failures of single integration steps and rate evaluations '
         '(injected)']
ASSUMPTIONS = ['The reference (mass action with transition state theory) uses the energies in '
               'force according to the recorded history.',
               'The algorithms of scipy integrate the function they are given.']
PROBES = ['explicit', 'in-force', 'boltzmann-start', 'empty-start', 'nested', 'two-models',
          'after-failure', 'default-hybrid', 'after-solve', 'corrected', 'absolute',
          'compared-with-reference-integration', 'repeated', 'late-start']
FAULTS = ['ode_interrupt', 'ode_error', 'ode_memory', 'rate_error', 'cut']
STATES = 'distinct (operations before, algorithm, origin of energies and start) combinations'
RULE = ('1-2 models, a seeded history of loads, corrections, solutions and integrations, some of '
        'them aborted or interleaved; every evaluation an integrator asks for is compared with '
        'the reference; nontrivial if integrations with two different sets of energies took place.')
CALLS = 600                       # evaluations compared per integration


def gen(rng, i, tier):
    ss, ops = [], []
    for m in range(rng.choice([1, 1, 2])):
        s = G.mkm(rng, G.SMALL if rng.random() < 0.8 else G.MANY)
        s['tol'] = rng.choice([1e-8, 1e-12])
        s['absolute'] = rng.random() < 0.25
        s['default_hybrid'] = rng.random() < 0.06
        if not s['default_hybrid']:
            s['hybrid'] = G.hybrid(rng, s)
        if m and rng.random() < 0.4:
            t = copy.deepcopy(ss[0])
            for k in ('pressure', 'totals', 'T'):
                if t['mech'] == s['mech'] and rng.random() < 0.6:
                    t[k] = s[k]
            s = t
        ss.append(s)
    for m, s in enumerate(ss):
        ops += [{'op': 'build', 'm': m}, load(rng, s, m)]
    for _ in range(rng.randint(2, 7)):
        m = rng.randrange(len(ss))
        s = ss[m]
        n = len(G.MECHANISMS[s['mech']]['rxns'])
        k = rng.choice(['int', 'int', 'int', 'int', 'load', 'correct', 'solve', 'k', 'run'])
        if k == 'load':
            ops.append(load(rng, s, m))
        elif k == 'int':
            ops.append(integration(rng, s, m))
            if rng.random() < 0.3:
                # the same again, with other energies
                again = copy.deepcopy(ops[-1])
                if rng.random() < 0.7:
                    ops[-1]['cut'] = rng.choice([1, 1, 2, 3, rng.randint(1, 60)])
                    again['c'] = ops[-1]['c'] = again['c'] or G.guess(rng, s)
                if rng.random() < 0.8:
                    ops.append(load(rng, s, m))
                if rng.random() < 0.5:
                    again['e'] = G.energies(rng, n) if rng.random() < 0.4 else None
                ops.append(again)
        elif k == 'correct':
            ops.append({'op': k, 'm': m, 'method': rng.choice(['shomate', 'entropy'])})
        else:
            ops.append({'op': k, 'm': m, 'c': G.guess(rng, s),
                        'e': G.energies(rng, n) if rng.random() < 0.5 else None})
            if k == 'run' and s['default_hybrid']:
                ops[-1]['c'] = None
    for m in range(len(ss)):
        ops.append(integration(rng, ss[m], m))
    nests = [rng.randint(1, 12) for _ in range(rng.randint(1, 3))] if len(ss) > 1 and \
        rng.random() < 0.6 else []
    faults = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            faults.append({'site': 'ode', 'at': rng.randint(0, 40),
                           'kind': rng.choice(['interrupt', 'error', 'memory'])}
                          if rng.random() < 0.5 else
                          {'site': 'rhs', 'at': rng.randint(0, 400), 'kind': 'raise'})
    return {'s': ss, 'ops': ops, 'faults': faults, 'nest': nests}


def load(rng, s, m):
    n = len(G.MECHANISMS[s['mech']]['rxns'])
    if s['absolute'] and rng.random() < 0.8:
        return {'op': 'abs', 'm': m, 'a': absolute(rng, s)}
    if s['absolute']:
        return {'op': 'none', 'm': m}
    return {'op': rng.choice(['load', 'loadfile']), 'm': m, 'e': G.energies(rng, n)}


def integration(rng, s, m):
    n = len(G.MECHANISMS[s['mech']]['rxns'])
    algo = 'lsoda' if s['absolute'] else rng.choice(['lsoda'] * 5 + ['vode', 'dopri5', 'dop853'])
    span, steps = 10.0 ** rng.uniform(-9, 0), rng.choice([1, 2, 5, 12, 30])
    if algo != 'lsoda':
        span, steps = 10.0 ** rng.uniform(-10, -8.7), min(steps, 12)
    start = rng.choice([0.0, 0.0, span * rng.randint(1, 5)])
    return {'op': 'int', 'm': m, 'algo': algo, 'span': span, 'start': start,
            'end': start + span * (steps - 0.5),
            'c': G.guess(rng, s) if rng.random() < 0.8 else None,
            'e': G.energies(rng, n) if rng.random() < 0.4 else None,
            'out': rng.random() < 0.2, 'ref': rng.random() < 0.3}


def nontrivial(res):
    return res['counters'].get('energy_sets', 0) > 1


# -- the reference in floating point -----------------------------------------------
class Kinetics(object):
    def __init__(self, s, rel, ads):
        ref = Ref(s)
        kf, kr = ref.k(rel)
        self.ads = list(ads)
        self.kmax = float(max(list(kf) + list(kr)))
        known = {g: float(p) for g, p in s['pressure'].items()}
        known.update({x: float(c) for x, c in s.get('conc', {}).items()})
        m = G.MECHANISMS[s['mech']]
        self.sites = {'*_' + t: (float(tot), [i for i, a in enumerate(ads)
                                             if a.rsplit('_', 1)[1] == t])
                      for t, tot in zip(m['sites'], s['totals'])}
        idx = {a: i for i, a in enumerate(ads)}
        self.sides = []
        for (a, b), f, r in zip(ref.rxns, kf, kr):
            row = []
            for side, k in ((a, float(f)), (b, float(r))):
                fac = []
                for n, sp in side:
                    if sp in known:
                        k *= known[sp] ** n
                    else:
                        fac.append((idx[sp] if sp in idx else sp, n))
                row.append((k, fac))
            nu = [0] * len(ads)
            for side, sign in ((a, -1), (b, 1)):
                for n, sp in side:
                    if sp in idx:
                        nu[idx[sp]] += sign * n
            self.sides.append((row[0], row[1], nu))

    def __call__(self, y):
        """Change rates and the largest elementary rate."""
        free = {s: tot - sum(y[i] for i in who) for s, (tot, who) in self.sites.items()}
        out, top = [0.0] * len(self.ads), 0.0
        for (kf, ff), (kr, fr), nu in self.sides:
            a, b = kf, kr
            for sp, n in ff:
                a *= (free[sp] if isinstance(sp, str) else y[sp]) ** n
            for sp, n in fr:
                b *= (free[sp] if isinstance(sp, str) else y[sp]) ** n
            top = max(top, abs(a), abs(b))
            for i, n in enumerate(nu):
                out[i] += n * (a - b)
        return out, top


# -- what the integrator is asked to integrate ---------------------------------------
@contextlib.contextmanager
def watched(sim, log, cut):
    """Every ode object keeps, in log, its start and its evaluations."""
    import scipy.integrate
    cls = scipy.integrate.ode
    init, start = cls.__init__, cls.set_initial_value

    def new(self, f, jac=None):
        rec = {'start': None, 'calls': [], 'n': 0, 'jac': jac is not None}

        def g(t, y, *a):
            if not sim.in_oracle:
                for x in sim.fault_for('rhs'):
                    sim.fire('rate_error')
                    raise FloatingPointError('injected')
            out = f(t, y, *a)
            rec['n'] += 1
            if not sim.in_oracle and cut and cut[-1] == rec['n']:
                rec['calls'].append(([float(v) for v in y], [float(v) for v in out]))
                sim.fire('cut')
                raise KeyboardInterrupt('injected')
            if rec['n'] <= CALLS or rec['n'] % 64 == 0:
                rec['calls'].append(([float(v) for v in y], [float(v) for v in out]))
            return out
        self._rec = rec
        if log:
            log[-1].append(rec)
        init(self, g, jac)

    def begin(self, y, t=0.0):
        r = start(self, y, t)
        self._rec['start'] = (float(t), [float(v) for v in self._y])
        return r
    cls.__init__, cls.set_initial_value = new, begin
    try:
        yield
    finally:
        cls.__init__, cls.set_initial_value = init, start


class State(object):
    def __init__(self, sess, s):
        self.sess, self.s = sess, s
        self.force = self.abs = None
        self.trail = []


def run(plan, sim, env):
    log, cut, sets = [], [], set()
    with mkm.linear_solves(sim), mkm.integrations(sim) as ode, watched(sim, log, cut):
        node = env.node()
        with node:
            models = [State(mkm.Session(node, env, s, 'm%d' % j, extra={'parser': (
                'AbsoluteEnergyParser' if s['absolute'] else 'RelativeEnergyParser')}), s)
                for j, s in enumerate(plan['s'])]
            if len(models) > 1:
                sim.probes['two-models'] += 1
            todo = list(enumerate(plan['ops']))
            busy = []
            count = [0]

            def between(*_):
                # another model gets its turn in the middle of an integration
                count[0] += 1
                if count[0] in plan['nest'] and todo and todo[0][1]['m'] not in busy:
                    sim.probes['nested'] += 1
                    turn()

            def turn():
                i, op = todo.pop(0)
                if op['m'] >= len(models):
                    return
                busy.append(op['m'])
                log.append([])
                cut.append(op.get('cut'))
                try:
                    step(plan, sim, env, models[op['m']], op, i, log, ode, sets)
                finally:
                    busy.pop()
                    log.pop()
                    cut.pop()
            real = wrap_steps(sim, between)
            try:
                while todo and not sim.violations:
                    turn()
            finally:
                real()
    sim.counters['energy_sets'] += len(sets)


def wrap_steps(sim, hook):
    import scipy.integrate
    cls = scipy.integrate.ode
    inner = cls.integrate

    def integrate(self, *a, **k):
        if not sim.in_oracle:
            hook()
        return inner(self, *a, **k)
    cls.integrate = integrate

    def undo():
        cls.integrate = inner
    return undo


def step(plan, sim, env, st, op, i, log, ode, sets):
    s, k, sess = st.s, op['op'], st.sess
    what = 'operation %d (%s of model %d)' % (i, k, op['m'])
    sim.event('op', i, k, op['m'])
    m = sess.model
    if k != 'build' and m is None:
        return
    if k == 'none' or (st.force is None and k not in ('build', 'load', 'loadfile', 'abs')):
        return
    if k == 'build':
        sess.raw(op)
        return
    if k == 'abs':
        env.put('abs_%d.py' % op['m'], 'absolute_energies = %r\n' % (op['a'],))
        m.parser.parse_data(filename='abs_%d.py' % op['m'])
        st.force, st.abs = rel_from_abs(s, op['a']), op['a']
        sim.probes['absolute'] += 1
    elif k in ('load', 'loadfile'):
        sess.raw(op)
        st.force = Ref.relative(op['e'])
    elif k == 'correct':
        sess.raw(op)
        st.force = thermo.corrected(G.MECHANISMS[s['mech']]['rxns'], st.force, op['method'],
                                    s['T'], s['pressure'])
        st.abs = None                      # does not say what a corrected start is
        sim.probes['corrected'] += 1
    else:
        fired = sum(sim.fired.values())
        result = error = None
        try:
            if k == 'int':
                kw = {'relative_energies': G.explicit(op['e'])} if op['e'] else {}
                c = op['c']
                if c is not None:
                    d = dict(zip(G.MECHANISMS[s['mech']]['ads'], c))
                    c = [d[a] for a in m.adsorbate_names]
                algo = op['algo']
                kin = Kinetics(s, mkm.rel_of(op['e']) if op['e'] else st.force, m.adsorbate_names)
                if algo != 'lsoda' and kin.kmax * (op['end'] - op['start']) > 3000:
                    algo = 'lsoda'         # the explicit ones would take for ever
                result = m.solver.solve_ode(
                    algo=algo, time_start=op['start'], time_end=op['end'],
                    time_span=op['span'], initial_cvgs=c, traj_output=op['out'], **kw)
            else:
                result = sess.raw(op)
        except GaveUp:
            raise
        except SimAbort:
            raise
        except (Exception, KeyboardInterrupt) as e:
            error = e
            sim.event('error', type(e).__name__)
        if error is not None:
            if sum(sim.fired.values()) == fired:
                if k == 'run' and isinstance(error, (ZeroDivisionError, ValueError)):
                    return                 # reversibilities that do not exist, and the like
                raise error
            sim.probes['after-failure'] += 1
        judge(plan, sim, st, op, what, log[-1], result, error, sets)
    st.trail.append(k)


def judge(plan, sim, st, op, what, recs, result, error, sets):
    s, k, m = st.s, op['op'], st.sess.model
    if k == 'int':
        if not recs:
            # e.g. refused before an integrator was made
            sim.check(error is not None, 'not-integrated', '%s: no integrator was used' % what)
            return
    elif not recs:
        return
    rel = mkm.rel_of(op['e']) if op.get('e') else st.force
    with sim.judging('integration'):
        ads = list(m.adsorbate_names)
        kin = Kinetics(s, rel, ads)
        sets.add(str(rel))
        sim.probes['explicit' if op.get('e') else 'in-force'] += 1
        if k == 'run':
            sim.probes['default-hybrid'] += 1
        if 'solve' in st.trail or 'run' in st.trail:
            sim.probes['after-solve'] += 1
        if 'int' in st.trail:
            sim.probes['repeated'] += 1
        for rec in recs:
            evaluations(sim, kin, rec, what)
        if k == 'int' and not sim.violations:
            begin(sim, st, op, ads, recs[-1], what)
            if result is not None:
                end(sim, st, op, kin, recs[-1], result, what)
        sim.state(tuple(st.trail[-3:]), op.get('algo'), bool(op.get('e')), op.get('c') is None)


def evaluations(sim, kin, rec, what):
    sim.counters['evaluations_compared'] += len(rec['calls'])
    for n, (y, out) in enumerate(rec['calls']):
        if not sim.check(len(y) == len(out) == len(kin.ads), 'wrong-size', '%s: %d rates for %d '
                         'coverages' % (what, len(out), len(y))):
            return
        if not all(math.isfinite(v) and abs(v) < 1e3 for v in y):
            continue                       # far outside: nobody knows what is asked there
        want, top = kin(y)
        for a, x, w in zip(kin.ads, out, want):
            if not sim.check(abs(x - w) <= 1e-8 * top + 1e-13 * kin.kmax, 'wrong-rate', lambda: (
                    '%s: evaluation %d at %s: coverage of %s changes with %.10e, the energies in '
                    'force give %.10e' % (what, n, dict(zip(kin.ads, y)), a, x, w))):
                return


def begin(sim, st, op, ads, rec, what):
    if not sim.check(rec['start'] is not None, 'no-start', what):
        return
    t, y = rec['start']
    sim.check(t == op['start'], 'wrong-start', '%s: starts at %r instead of %r' % (
        what, t, op['start']))
    if op['start']:
        sim.probes['late-start'] += 1
    if op['c'] is not None:
        d = dict(zip(G.MECHANISMS[st.s['mech']]['ads'], op['c']))
        want = [d[a] for a in ads]
    elif st.abs is not None:
        sim.probes['boltzmann-start'] += 1
        w = {sp: math.exp(-e / (KB * st.s['T'])) for sp, e in st.abs.items()}
        total = sum(w[a] for a in ads) + sum(v for sp, v in w.items() if sp.startswith('*_'))
        want = [w[a] / total for a in ads]
    elif not st.s['absolute']:
        sim.probes['empty-start'] += 1
        want = [0.0] * len(ads)
    else:
        return
    sim.check(len(y) == len(want) and all(abs(a - b) <= 1e-12 for a, b in zip(y, want)),
              'wrong-start', '%s: starts from %s, expected %s' % (what, y, want))


def end(sim, st, op, kin, rec, result, what):
    t, c = result
    if not sim.check(len(c) == len(kin.ads), 'wrong-size', what) or not op['ref'] or \
            op['algo'] != 'lsoda' or float(t) < op['end']:
        return
    from scipy.integrate import solve_ivp
    t0, y0 = rec['start']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = solve_ivp(lambda _, y: kin(list(y))[0], (0.0, float(t) - t0), y0, method='LSODA',
                      rtol=1e-9, atol=1e-13)
    if not r.success:
        return
    sim.probes['compared-with-reference-integration'] += 1
    bad = max(abs(a - b) for a, b in zip(c, r.y[:, -1]))
    sim.check(bad < 2e-3, 'wrong-end', lambda: '%s: ends at %s, integrating the reference gives %s' % (
        what, list(c), list(r.y[:, -1])))


def simpler(plan):
    for i, op in enumerate(plan['ops']):
        if op.get('e') and op['op'] in ('int', 'solve', 'run', 'k'):
            ops = copy.deepcopy(plan['ops'])
            ops[i]['e'] = None
            yield dict(plan, ops=ops)
    if plan['nest']:
        yield dict(plan, nest=[])
