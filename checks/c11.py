"""C11 - see DESIGN.md."""
import copy
import pickle

import mpmath

from simkit import gen as G, mkm, thermo
from simkit.refmodel import Ref, close, close_list, ctx, num

ID = 'C11'
RUNS = {'quick': 700, 'thorough': 14000}
STEP_LIMIT = 30000000
REAL = ['scaks.solvers.*', 'scaks.parsers.*', 'scaks.correctors', 'scaks.descriptors',
        'scaks.models.micro_kinetic_model', 'mpmath', 'scipy']
STUBS = ['file operations', 'hybrid method (deterministic guesses)']
ASSUMPTIONS = ['The reference (transition state theory and mass action, written from the physics) '
               'uses the energies in force according to the recorded history.']
PROBES = ['explicit', 'in-force', 'absent-argument', 'corrected', 'lying-file', 'loaded-from-file',
          'absolute', 'xrc', 'xrc-explicit', 'retry', 'two-loads', 'back-to-earlier',
          'file-changed-on-disk', 'gas-correction', 'collision-theory',
          'part-exchanged']
FAULTS = ['singular linear solve', 'short_read']
STATES = 'distinct (kind of result, where its energies came from) sequences'
RULE = ('One model, a random history of loads, corrections and calls; every result is compared '
        'with the reference for the energies in force; nontrivial if two different sets of '
        'energies were in force.')


def absolute(rng, s):
    m = G.MECHANISMS[s['mech']]
    out = {}
    for g in m['gases'] + m.get('liquids', []):
        out[g] = round(rng.uniform(-0.3, 0.3), 3)
    for t in m['sites']:
        out['*_' + t] = round(rng.uniform(-0.1, 0.1), 3)
    for a in m['ads']:
        out[a] = round(rng.uniform(-0.2, 0.2), 3)
    for r in m['rxns']:
        parts = [p.strip() for p in r.replace('<->', '->').split('->')]
        if len(parts) == 3:
            for n, sp in __import__('simkit.refmodel', fromlist=['terms']).terms(parts[1]):
                if not sp.startswith('*'):
                    out[sp] = round(rng.uniform(0.6, 0.9), 3)
    return out


def gen(rng, i, tier):
    s = G.mkm(rng, G.MANY)
    s['tol'] = rng.choice([1e-12, 1e-15, 1e-18])
    s['dps'] = rng.choice([40, 50, 60, 100])
    s['archived'] = [a for a in ('steady_state_coverages', 'steady_state_error', 'rates',
                                 'net_rates', 'reversibilities', 'tofs', 'initial_guess')
                     if rng.random() < 0.6]
    s['hybrid'] = G.hybrid(rng, s)
    if rng.random() < 0.12 and s['mech'] in ('co_ads', 'iso', 'h2_diss'):
        s['rootfinding'] = 'ConstrainedNewton'
    G.collisions(rng, s, 0.15)
    parser = 'AbsoluteEnergyParser' if rng.random() < 0.2 else 'RelativeEnergyParser'
    n = len(G.MECHANISMS[s['mech']]['rxns'])
    pool = [G.energies(rng, n) for _ in range(3)]
    if rng.random() < 0.3:        # sets that differ in one number only
        pool[1] = copy.deepcopy(pool[0])
        j = rng.randrange(n)
        pool[1][rng.choice(['Ga', 'dG'])][j] += rng.choice([0.01, -0.02, 1e-4, 1e-7, -1e-9, 1e-11])
    if rng.random() < 0.2:        # no barrier at all
        pool[2]['Ga'][rng.randrange(n)] = 0.0
    if s.get('algo') == 'CT':
        pool = [G.collision_energies(rng, s, e) for e in pool]
    apool = [absolute(rng, s) for _ in range(2)]

    def load():
        if parser == 'AbsoluteEnergyParser':
            return {'op': 'abs', 'a': rng.choice(apool)}
        x = rng.random()
        if x < 0.6:
            return {'op': 'load', 'e': rng.choice(pool)}
        return {'op': 'loadfile', 'e': rng.choice(pool)}
    ops = [{'op': 'build'}, load()]
    c = G.guess(rng, s)
    for _ in range(rng.randint(3, 12)):
        k = rng.choice(['k', 'k', 'k', 'rates', 'net', 'tof', 'resid', 'dtheta', 'jac', 'solve',
                        'solve', 'run', 'run', 'xrc', 'coarse', 'load', 'load', 'correct', 'rev',
                        'gas', 'lie', 'rewrite', 'new'])
        if k == 'new':
            ops.append({'op': rng.choice(['newsolver', 'newcorrector'])})
            continue
        if s.get('algo') == 'CT' and k in ('solve', 'run', 'xrc', 'coarse'):
            k = 'k'              # its constants are known to double precision only
        if k == 'load':
            ops.append(load())
            continue
        if k == 'lie':
            ops.append({'op': 'lie', 'e': rng.choice(pool)})
            continue
        if k == 'rewrite':
            # the file that was loaded changes later: nothing must happen
            ops.append({'op': 'rewrite', 'e': rng.choice(pool)})
            continue
        if k == 'correct':
            ops.append({'op': 'correct', 'method': rng.choice(['shomate', 'entropy'])})
            continue
        if k == 'gas':
            op = {'op': 'gas', 'gas': rng.choice(sorted(s['pressure']) + sorted(s['pressure']) +
                                                 G.MECHANISMS[s['mech']]['ads']),
                  'method': rng.choice(['shomate', 'entropy'])}
            if rng.random() < 0.5:
                op['T'] = round(rng.choice([rng.uniform(200, 1800), rng.uniform(250, 700)]), 2)
            if op['method'] == 'entropy' and rng.random() < 0.3:
                op['p'] = round(thermo.P0 * 10 ** rng.uniform(-4, 1), 3)
            if op['method'] == 'entropy' and rng.random() < 0.25:
                op['m'] = 10 ** rng.uniform(-26.5, -25)
            if op['method'] == 'shomate' and rng.random() < 0.3 and op['gas'] in thermo.LIMITS:
                op['T'] = float(rng.choice(thermo.LIMITS[op['gas']]))
            ops.append(op)
            if len(op) > 3 and rng.random() < 0.5:     # the same again, without arguments
                ops.append({'op': 'gas', 'gas': op['gas'], 'method': op['method']})
            continue
        op = {'op': k, 'e': rng.choice(pool) if rng.random() < 0.4 else None,
              'how': rng.choice(['none', 'absent'])}
        if op['e'] is not None and abs(min(op['e']['Ga'])) < 1e-9 and \
                op['e']['dG'][op['e']['Ga'].index(0.0)] > 0:
            op['e'] = None
        if k != 'k':
            op['c'] = c if rng.random() < 0.4 else G.guess(rng, s)
        else:
            op['log'] = rng.random() < 0.3
        if k == 'tof' and rng.random() < 0.4:
            op['gas'] = rng.choice(sorted(s['pressure']))
        if k == 'run':
            op['coarse'] = rng.random() < 0.3
            if rng.random() < 0.3:
                op.update(XRC=True, epsilon=rng.choice([1e-2, 1e-3]),
                          product_name=rng.choice(sorted(s['pressure'])))
        if k == 'xrc':
            last = [o['op'] for o in ops if o['op'] in ('solve', 'run', 'newsolver')]
            if not last or last[-1] == 'newsolver':
                continue
            op['gas'] = rng.choice(sorted(s['pressure']))
            op['eps'] = rng.choice([1e-2, 1e-3])
            op['c'] = None
        ops.append(op)
    faults = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        faults.append({'site': 'lu', 'at': rng.randint(0, 30), 'kind': 'singular'})
    if rng.random() < 0.1:
        faults.append({'site': 'read', 'at': rng.randint(0, 3), 'kind': 'short'})
    return {'s': s, 'parser': parser, 'ops': ops, 'faults': faults}


def nontrivial(res):
    return res['counters'].get('energy_sets', 0) > 1


class Force(object):
    """Relative energies in force, from the history alone."""
    cur = None


def rel_from_abs(s, a):
    from simkit.refmodel import terms
    out = {'Gaf': [], 'Gar': [], 'dG': []}

    def en(side):
        return sum(n * a[sp] for n, sp in terms(side))
    for r in G.MECHANISMS[s['mech']]['rxns']:
        parts = [p.strip() for p in r.replace('<->', '->').split('->')]
        e = [en(p) for p in parts]
        ts = e[1] if len(e) == 3 else max(e)
        out['Gaf'].append(ts - e[0])
        out['Gar'].append(ts - e[-1])
        out['dG'].append(e[-1] - e[0])
    return out


def run(plan, sim, env):
    s = plan['s']
    ref = Ref(s)
    cur = None
    sets = set()
    trail = []
    with mkm.linear_solves(sim):
        node = env.node()
        with node:
            sess = mkm.Session(node, env, s, extra={'parser': plan['parser']})
            for i, op in enumerate(plan['ops']):
                sim.event('op', i, op['op'])
                k = op['op']
                if k in ('lie', 'rewrite'):
                    fn = 'rel_energy.py' if k == 'lie' else 'energies_a.py'
                    if k == 'lie' or env.read(fn) is not None:
                        env.put(fn, 'Ga = %r\ndG = %r\n' % (op['e']['Ga'], op['e']['dG']))
                        sim.probes['lying-file' if k == 'lie' else 'file-changed-on-disk'] += 1
                    continue
                if k == 'abs':
                    env.put('abs_e.py', 'absolute_energies = %r\n' % (op['a'],))
                    sess.model.parser.parse_data(filename='abs_e.py')
                    cur = rel_from_abs(s, op['a'])
                    sim.probes['absolute'] += 1
                elif k in ('load', 'loadfile'):
                    sess.raw(op)
                    cur = Ref.relative(op['e'])
                    if k == 'loadfile':
                        sim.probes['loaded-from-file'] += 1
                elif k == 'correct':
                    sess.raw(op)
                    cur = thermo.corrected(G.MECHANISMS[s['mech']]['rxns'], cur, op['method'],
                                           s['T'], s['pressure'])
                    sim.probes['corrected'] += 1
                elif k in ('newsolver', 'newcorrector'):
                    sess.raw(op)
                    sim.probes['part-exchanged'] += 1
                elif k == 'gas':
                    gas(sim, s, sess.model, op, 'operation %d' % i)
                else:
                    one(plan, sim, env, sess, ref, cur, op, i)
                    if k != 'build':
                        trail.append((k, op.get('e') is not None))
                if k in ('abs', 'load', 'loadfile', 'correct'):
                    sets.add(str(cur))
                    with sim.judging('relative energies'):
                        e = sess.model.relative_energies
                        for x in ('Gaf', 'Gar', 'dG'):
                            sim.check(close_list(e[x], cur[x], 1e-9, 1e-12), 'energies',
                                      lambda: '%s after %s: %s, expected %s' % (
                                          x, k, list(e[x]), cur[x]))
                        # sums are rounded: go on with the last bits of the model
                        cur = {x: [float(v) for v in e[x]] for x in cur}
                if sim.violations:
                    return
    sim.counters['energy_sets'] += len(sets)
    sim.state(tuple(trail))


def gas(sim, s, m, op, what):
    """The correction of one gas, at the conditions of the model or at given ones."""
    g, kw = op['gas'], {x: op[x] for x in ('T', 'p', 'm') if x in op}
    got = getattr(m.corrector, op['method'] + '_correction')(g, **kw)
    T = op.get('T', s['T'])
    want = thermo.shomate(g, T) if op['method'] == 'shomate' else \
        thermo.entropy(g, T, op.get('p', thermo.P0 * s['pressure'].get(g, 1.0)), op.get('m'))
    sim.probes['gas-correction'] += 1
    sim.check(abs(got - want) <= 1e-9 * (1 + abs(want)), 'wrong:correction',
              '%s: %s correction of %s with %s is %.10f, expected %.10f' % (
                  what, op['method'], g, kw, got, want))


def same(sim, got, want, rel, what, scale=0):
    if sim.plan['s'].get('algo') == 'CT':
        sim.probes['collision-theory'] += 1
        rel, scale = 1e-9, max(num(scale), num(10) ** 15 * max(abs(x) for x in want))
    sim.check(close_list(list(got), list(want), rel, num(10) ** -25 * (1 + num(scale))),
              'wrong:' + what.split()[0],
              lambda: '%s: got %s, expected %s' % (what, [mpmath.nstr(x, 12) for x in got],
                                                   [ctx.nstr(x, 12) for x in want]))


def one(plan, sim, env, sess, ref, cur, op, i):
    s, k = plan['s'], op['op']
    if k == 'build':
        sess.raw(op)
        return
    explicit = op.get('e') is not None
    rel = mkm.rel_of(op['e']) if explicit else cur
    sim.probes['explicit' if explicit else 'in-force'] += 1
    if not explicit and op.get('how') == 'absent':
        sim.probes['absent-argument'] += 1
    m = sess.model
    before = (mkm.val(m.steady_state_coverages), mkm.val(m.solver.coverages),
              mkm.val(m.solver._error) if hasattr(m.solver, '_error') else None,
              env.read('data.pkl')) if k == 'xrc' else None
    start = list(m.solver.coverages) if k == 'xrc' else None
    try:
        r = sess.raw(op)
    except ValueError as e:
        # a failed linear solve may end a solve or a rate control calculation
        if sim.fired['lu_singular'] and k in ('solve', 'run', 'xrc') and \
                s['rootfinding'] == 'ConstrainedNewton':
            return
        raise
    except ZeroDivisionError:
        # reversibilities of reactions that do not run forward do not exist
        with sim.judging(k):
            at = op['c'] if k == 'rev' else m.solver.coverages
            if k in ('rev', 'run') and at is not None and any(
                    x == 0 for x in ref.rates(at, ref.k(rel), list(m.adsorbate_names))[0]):
                sim.probes['no-reversibility'] += 1
                return
        raise
    with sim.judging(k):
        ads, gases = list(m.adsorbate_names), list(m.gas_names)
        ks = ref.k(rel)
        what = '%s (operation %d, %s energies)' % (k, i, 'given' if explicit else 'loaded')
        c = op.get('c')
        kmax = max(list(ks[0]) + list(ks[1]))
        if k == 'k':
            same(sim, r[0], ks[0], 1e-12, 'k forward ' + what)
            same(sim, r[1], ks[1], 1e-12, 'k reverse ' + what)
        elif k in ('rates', 'net', 'rev'):
            rf, rr = ref.rates(c, ks, ads)
            if k == 'rates':
                same(sim, r[0], rf, 1e-11, 'rates ' + what)
                same(sim, r[1], rr, 1e-11, 'rates ' + what)
            elif k == 'net':
                same(sim, r, [a - b for a, b in zip(rf, rr)], 1e-10, 'net ' + what, kmax)
            else:
                same(sim, r, [b / a for a, b in zip(rf, rr)], 1e-10, 'reversibilities ' + what)
        elif k == 'tof':
            want = ref.tof(c, ks, gases, ads)
            if op.get('gas'):
                r, want = [r], [want[gases.index(op['gas'])]]
            same(sim, r, want, 1e-10, 'tof ' + what, kmax * num(1e15))
        elif k in ('resid', 'dtheta'):
            want = ref.dtheta(c, ks, ads)
            if k == 'resid':
                r, want = [r], [max(abs(x) for x in want)]
            same(sim, r, want, 1e-10, k + ' ' + what, kmax * num(1e15))
        elif k == 'jac':
            n = len(ads)
            got = [[r[a, b] for b in range(n)] for a in range(n)]
            want = jacobian(ref, c, ks, ads)
            for a in range(n):
                same(sim, got[a], want[a], 1e-8, 'jacobian ' + what, kmax * num(1e15))
        elif k == 'coarse':
            if mkm_fsolve_ok(ref, r, ks, ads):
                sim.counters['coarse_converged'] += 1
        elif k == 'solve':
            if sim.check(r is not None, 'no-result', what):
                mkm.converged(sim, s, ads, r, rel, what)
                same(sim, m.solver.coverages, [num(x) for x in r], 1e-30, 'coverages ' + what)
        elif k == 'run':
            cv, tofs, rev, err = r
            mkm.converged(sim, s, ads, cv, rel, what)
            rf, rr = ref.rates(cv, ks, ads)
            same(sim, tofs, ref.tof(cv, ks, gases, ads), 1e-9, 'tof ' + what,
                 max(max(a, b) for a, b in zip(rf, rr)) * num(1e12))
            if mkm.meaningful(s, ref, ads, cv):
                same(sim, rev, [b / a for a, b in zip(rf, rr)], 1e-10, 'reversibilities ' + what)
            if op.get('XRC'):
                sim.probes['xrc'] += 1
                same(sim, m.solver.coverages, [num(x) for x in cv], 1e-30,
                     'state after rate control ' + what)
                same(sim, [m.solver.error], [num(m.error)], 1e-20, 'error after rate control ' + what)
                archive(sim, env, s, m, what)
        elif k == 'xrc':
            sim.probes['xrc'] += 1
            if explicit:
                sim.probes['xrc-explicit'] += 1
            after = (mkm.val(m.steady_state_coverages), mkm.val(m.solver.coverages),
                     mkm.val(m.solver._error) if hasattr(m.solver, '_error') else None)
            sim.check(after == before[:3], 'rate-control-changes-state',
                      '%s: the state reported before and after differ: %s / %s' % (
                          what, before[:3], after))
            a, b = env.read('data.pkl'), before[3]
            if b is None:
                sim.check(a is None or not {'steady_state_coverages', 'steady_state_error',
                                            'initial_guess'} & set(pickle.loads(a)),
                          'rate-control-changes-archive', what)
            else:
                a, b = pickle.loads(a), pickle.loads(b)
                for key in b:
                    sim.check(mkm.val(a.get(key)) == mkm.val(b[key]),
                              'rate-control-changes-archive',
                              lambda: '%s: %s was %s, is %s' % (what, key, b[key], a.get(key)))
            xrc_value(sim, s, ref, ads, gases, rel, op, r, start, what)


def archive(sim, env, s, m, what):
    raw = env.read('data.pkl')
    d = pickle.loads(raw) if raw else {}
    want = {'steady_state_coverages': m.steady_state_coverages, 'tofs': m.TOFs,
            'reversibilities': m.reversibilities, 'steady_state_error': m.error}
    for key, v in want.items():
        if key in s['archived']:
            sim.check(mkm.val(d.get(key)) == mkm.val(v), 'rate-control-changes-archive',
                      lambda: '%s: archive has %s = %s, reported was %s' % (
                          what, key, d.get(key), v))


def jacobian(ref, c, ks, ads):
    h = ctx.mpf(10) ** -40
    n = len(c)
    out = [[None] * n for _ in range(n)]
    for j in range(n):
        up = [num(x) for x in c]
        dn = list(up)
        up[j] += h
        dn[j] -= h
        a, b = ref.dtheta(up, ks, ads), ref.dtheta(dn, ks, ads)
        for i in range(n):
            out[i][j] = (a[i] - b[i]) / (2 * h)
    return out


def newton(ref, c, ks, ads, n=60):
    """The root near *c*, by the reference; None if it is not close."""
    x = [num(v) for v in c]
    for _ in range(n):
        f = ref.dtheta(x, ks, ads)
        J = jacobian(ref, x, ks, ads)
        try:
            d = ctx.lu_solve(ctx.matrix(J), -ctx.matrix(f))
        except ZeroDivisionError:
            return None
        x = [a + b for a, b in zip(x, d)]
        if max(abs(b) for b in d) < ctx.mpf(10) ** -60:
            return x
    return None


def mkm_fsolve_ok(ref, c, ks, ads):
    return max(abs(x) for x in ref.dtheta([float(v) for v in c], ks, ads)) < 1e-4


def xrc_value(sim, s, ref, ads, gases, rel, op, got, start, what):
    """Rate control by the reference, where it is well defined."""
    j = gases.index(op['gas'])
    ks = ref.k(rel)
    r0 = ref.tof(start, ks, gases, ads)[j]
    scale = max(max(a, b) for a, b in zip(*ref.rates(start, ks, ads)))
    if abs(r0) <= scale * num(1e-7):
        return                       # next to equilibrium: 0/0
    if max(abs(x) for x in ref.dtheta(start, ks, ads)) > num(s['tol']) * 2:
        return                       # not the steady state of these energies
    for i in range(len(ks[0])):
        rel2 = copy.deepcopy(rel)
        rel2['Gaf'][i] += op['eps']
        rel2['Gar'][i] += op['eps']
        k2 = ref.k(rel2)
        c2 = newton(ref, start, k2, ads)
        if c2 is None or min(c2) < 0:
            continue
        r1 = ref.tof(c2, k2, gases, ads)[j]
        x = ks[0][i] / r0 * (r1 - r0) / (k2[0][i] - ks[0][i])
        if got[i] == 'inf':
            continue
        sim.counters['rate_controls_compared'] += 1
        sim.check(abs(num(got[i]) - x) < num(1e-4) * (1 + abs(x)), 'wrong:rate-control',
                  lambda: '%s: reaction %d: %s, expected %s' % (
                      what, i, float(got[i]), ctx.nstr(x, 10)))
