"""C09 - see DESIGN.md."""
import pickle

import mpmath

from simkit import gen as G, mkm
from simkit.core import SimCrash
from simkit.refmodel import Ref, close_list, ctx, num

ID = 'C09'
RUNS = {'quick': 500, 'thorough': 12000}
STEP_LIMIT = 30000000
REAL = ['scaks.models.micro_kinetic_model', 'scaks.solvers.*', 'scaks.__init__ (archive)',
        'scaks.parsers.*', 'pickle', 'mpmath', 'scipy']
STUBS = ['file operations (fault points over a real scratch directory)', 'clock',
         'hybrid method (deterministic guesses), except in a few runs']
ASSUMPTIONS = ['Archived numbers are compared with what the model reports and with the '
               'independent reference.']
KEYS = ['steady_state_coverages', 'steady_state_error', 'initial_guess', 'rates', 'net_rates',
        'reversibilities', 'tofs']
PROBES = ['restart-accepts', 'restart-other-energies', 'restart-tighter', 'restart-from-coarse',
          'restart-after-crash', 'archive-without-coverages', 'no-archive', 'other-mechanism',
          'explicit-energies', 'rate-control', 'second-run-in-process', 'nothing-archived',
          'default-hybrid']
FAULTS = ['singular linear solve', 'crash_before_op', 'crash_after_open', 'torn_write',
          'crash_before_write', 'crash_after_write']
STATES = 'distinct (archived keys, kind of run, what it found) sequences'
RULE = ('A chain of processes in one directory, each with one or more runs; nontrivial if a '
        'process started from an archive.')


def gen(rng, i, tier):
    s = G.mkm(rng, G.SMALL)
    s['hybrid'] = G.hybrid(rng, s)
    if rng.random() < 0.04:
        s['archived'] = [k for k in KEYS if k != 'steady_state_coverages' and rng.random() < 0.6]
    else:
        s['archived'] = ['steady_state_coverages'] + [k for k in KEYS[1:] if rng.random() < 0.5]
        rng.shuffle(s['archived'])
    if rng.random() < 0.06:
        s['rootfinding'] = rng.choice(['ConstrainedNewton', 'MDNewton'])
        if s['mech'] == 'co_ox':
            s['rootfinding'] = 'MDNewton'
    n = len(G.MECHANISMS[s['mech']]['rxns'])
    pool = [G.energies(rng, n) for _ in range(2)]
    procs, first = [], True
    for p in range(rng.randint(2, 4)):
        ops = []
        # everything explicit, or loaded, or both
        mode = rng.choice(['loaded', 'loaded', 'explicit', 'both'])
        e = pool[0] if rng.random() < 0.75 else pool[1]
        load = e if mode == 'loaded' else (pool[1] if mode == 'both' else None)
        proc = {'load': load, 'ops': ops, 'tol': s['tol']}
        if rng.random() < 0.12:
            proc['tol'] = rng.choice([1e-6, 1e-9, 1e-14])
        for r in range(rng.choice([1, 1, 2])):
            op = {'op': 'run', 'e': None if mode == 'loaded' else e,
                  'how': rng.choice(['none', 'absent']), 'coarse': 'default'}
            x = rng.random()
            if x < (0.6 if first else 0.2):
                op['c'] = G.guess(rng, s)
            if rng.random() < 0.3:
                op['coarse'] = rng.choice([True, False])
            if rng.random() < 0.12:
                op['fsolve'] = True
                if first or rng.random() < 0.5:
                    op['c'] = G.guess(rng, s)
            if rng.random() < 0.15:
                op.update(XRC=True, product_name=rng.choice(sorted(s['pressure'])),
                          epsilon=rng.choice([1e-2, 1e-3]))
            ops.append(op)
            first = False
        if rng.random() < 0.15:
            proc['crash'] = {'site': 'fs~data', 'at': rng.randint(0, 12),
                             'kind': rng.choice(['torn', 'crash_before', 'crash_after']),
                             'frac': round(rng.random(), 2)}
        procs.append(proc)
    faults = []
    if rng.random() < 0.3:
        faults.append({'site': 'lu', 'at': rng.randint(0, 20), 'kind': 'singular'})
    plan = {'s': s, 'procs': procs, 'faults': faults, 'fs_groups': ['data'], 'phased': True,
            'default_hybrid': rng.random() < 0.02}
    if rng.random() < 0.05:
        plan['foreign'] = rng.choice([0, 1, 3])   # coverages of a model of other size lie there
    return plan


def simpler(plan):
    for i in range(len(plan['procs'])):
        if len(plan['procs']) > 1:
            yield dict(plan, procs=plan['procs'][:i] + plan['procs'][i + 1:])
    for i, p in enumerate(plan['procs']):
        for j in range(len(p['ops'])):
            if len(p['ops']) > 1:
                q = dict(p, ops=p['ops'][:j] + p['ops'][j + 1:])
                yield dict(plan, procs=plan['procs'][:i] + [q] + plan['procs'][i + 1:])
            for key in ('XRC', 'fsolve', 'e'):
                if p['ops'][j].get(key):
                    o = {k: v for k, v in p['ops'][j].items() if k != key}
                    q = dict(p, ops=p['ops'][:j] + [o] + p['ops'][j + 1:])
                    yield dict(plan, procs=plan['procs'][:i] + [q] + plan['procs'][i + 1:])
        if p.get('crash'):
            yield dict(plan, procs=plan['procs'][:i] + [dict(p, crash=None)] + plan['procs'][i + 1:])


def nontrivial(res):
    return any(res['probes'].get(p) for p in
               ('restart-accepts', 'restart-other-energies', 'restart-tighter',
                'restart-from-coarse', 'archive-without-coverages'))


def run(plan, sim, env):
    s = plan['s']
    if plan.get('foreign') is not None and plan['foreign'] != len(G.MECHANISMS[s['mech']]['ads']):
        env.put('data.pkl', pickle.dumps({'steady_state_coverages': (0.1,) * plan['foreign']}))
        sim.probes['other-mechanism'] += 1
    trail = []
    state = {'crashed': False, 'last': None}
    sim.arm(plan['faults'])
    with mkm.linear_solves(sim):
        for p, proc in enumerate(plan['procs']):
            if proc.get('crash'):
                sim.arm([proc['crash']])
            node = env.node()
            try:
                with node:
                    process(plan, sim, env, node, proc, p, state, trail)
            except SimCrash:
                env.reboot()
                state['crashed'] = True
                continue
            if sim.violations:
                return
            env.stop()
    sim.state(tuple(sorted(s['archived'])), tuple(trail))


def process(plan, sim, env, node, proc, p, state, trail):
    s = dict(plan['s'], tol=proc['tol'])
    if plan.get('default_hybrid'):
        s.pop('hybrid')
        sim.probes['default-hybrid'] += 1
    sess = mkm.Session(node, env, s)
    sess.raw({'op': 'build'})
    m = sess.model
    if proc['load'] is not None:
        sess.raw({'op': 'load', 'e': proc['load']})
    ref = Ref(s)
    for i, op in enumerate(proc['ops']):
        what = 'process %d, run %d' % (p, i)
        e = op['e'] if op.get('e') is not None else proc['load']
        if e is None:
            continue
        explicit = op.get('e') is not None
        rel = mkm.rel_of(op['e']) if explicit else Ref.relative(e)
        if explicit and min(op['e']['Ga']) <= 0:
            continue
        found = env.read('data.pkl')
        with sim.oracle():
            before = pickle.loads(found) if found else None
        kw = {'relative_energies': mkm.rel_of(op['e'])} if explicit else (
            {} if op.get('how') == 'absent' else {'relative_energies': None})
        if explicit:
            sim.probes['explicit-energies'] += 1
        for a in ('XRC', 'epsilon', 'product_name', 'fsolve'):
            if a in op:
                kw[a] = op[a]
        if op['coarse'] != 'default':
            kw['coarse_guess'] = op['coarse']
        if op.get('c') is not None:
            kw['init_cvgs'] = list(op['c'])
        sim.event('run', p, i)
        try:
            m.run(**kw)
        except ValueError:
            if sim.fired['lu_singular'] and s['rootfinding'] == 'ConstrainedNewton':
                return
            raise
        if i:
            sim.probes['second-run-in-process'] += 1
        if op.get('XRC'):
            sim.probes['rate-control'] += 1
        with sim.judging('results'):
            judge(sim, env, s, m, ref, rel, op, before, what, state, trail)
        if sim.violations:
            return
        state['last'] = (op.get('fsolve', False), proc['tol'], repr(rel))


def judge(sim, env, s, m, ref, rel, op, before, what, state, trail):
    ads, gases = list(m.adsorbate_names), list(m.gas_names)
    cv = m.steady_state_coverages
    if not sim.check(cv is not None, 'no-result', what):
        return
    ks = ref.k(rel)
    eps = mkm.grain(s, cv) * max(list(ks[0]) + list(ks[1])) + num(1e-30)
    if not op.get('fsolve'):
        mkm.converged(sim, s, ads, cv, rel, what)
    # -- the archive holds what was reported, and only that -------------------
    raw = env.read('data.pkl')
    d = pickle.loads(raw) if raw else {}
    sim.check(set(d) <= set(s['archived']), 'not-requested',
              lambda: '%s: archived %s, requested %s' % (what, sorted(d), sorted(s['archived'])))
    rf, rr = ref.rates(cv, ks, ads)
    net = [a - b for a, b in zip(rf, rr)]
    reported = {'steady_state_coverages': m.steady_state_coverages, 'tofs': m.TOFs,
                'reversibilities': m.reversibilities, 'steady_state_error': m.error}
    exact = {'rates': (rf, rr), 'net_rates': net}
    if not s['archived']:
        sim.probes['nothing-archived'] += 1
    for key in s['archived']:
        if not sim.check(key in d, 'not-archived', lambda: '%s: %s is not in the archive' % (what, key)):
            continue
        if key in reported:
            sim.check(mkm.val(d[key]) == mkm.val(reported[key]), 'archive-differs',
                      lambda: '%s: %s in the archive is %s, reported was %s' % (
                          what, key, d[key], reported[key]))
        elif key == 'rates':
            for a, b in zip(d[key], exact[key]):
                sim.check(close_list(list(a), b, 1e-10, 1e-30), 'archive-differs',
                          lambda: '%s: rates in the archive are %s, true are %s' % (what, a, b))
        elif key == 'net_rates':
            sim.check(close_list(list(d[key]), net, 1e-9, eps),
                      'archive-differs', lambda: '%s: net rates in the archive are %s, true are %s' % (
                          what, d[key], net))
        elif key == 'initial_guess':
            sim.check(len(d[key]) == len(ads), 'archive-differs', what + ': initial guess')
    if 'rates' in d and 'net_rates' in d:
        # the difference of what was reported, to the last digit of the working precision
        with mpmath.workdps(s['dps'] + 10):
            for a, b, x in zip(d['rates'][0], d['rates'][1], d['net_rates']):
                gap = abs(mpmath.mpf(x) - (mpmath.mpf(a) - mpmath.mpf(b)))
                top = max(abs(mpmath.mpf(a)), abs(mpmath.mpf(b)))
                unit = mpmath.mpf(10) ** (3 - s['dps']) if hasattr(a, '_mpf_') else mpmath.mpf(2) ** -50
                sim.check(gap <= unit * top, 'archive-differs',
                          lambda: '%s: net rate %r in the archive, rates %r - %r' % (what, x, a, b))
    # -- reported values belong to the reported coverages ---------------------
    sim.check(close_list(list(m.TOFs), ref.tof(cv, ks, gases, ads), 1e-9, eps),
              'wrong-tof', lambda: '%s: %s, expected %s' % (
                  what, [float(x) for x in m.TOFs],
                  [float(x) for x in ref.tof(cv, ks, gases, ads)]))
    sim.check(not mkm.meaningful(s, ref, ads, cv) or
              close_list(list(m.reversibilities), [b / a for a, b in zip(rf, rr)], 1e-10),
              'wrong-reversibility', what)
    # -- where did it start? ---------------------------------------------------
    found = '-'
    if op.get('c') is None:
        if before is None:
            sim.probes['no-archive'] += 1
            found = 'nothing'
        elif 'steady_state_coverages' not in before:
            sim.probes['archive-without-coverages'] += 1
            found = 'other keys'
        elif len(before['steady_state_coverages']) != len(ads):
            found = 'other mechanism'
        else:
            c0 = list(before['steady_state_coverages'])
            res = max(abs(x) for x in ref.dtheta(c0, ks, ads))
            eps0 = eps + mkm.grain(s, c0) * max(list(ks[0]) + list(ks[1]))
            if state['crashed']:
                sim.probes['restart-after-crash'] += 1
            if op.get('fsolve'):
                found = 'ignored'
            elif res <= num(s['tol']) * num(0.999) - eps0 and allowed(s, ads, c0):
                # it satisfies the tolerance: it is the result
                sim.probes['restart-accepts'] += 1
                found = 'accepted'
                sim.check(close_list(list(cv), c0, 1e-25, 1e-30), 'not-continued',
                          lambda: '%s: the archived state %s satisfies the tolerance, '
                          'but %s is reported' % (what, [mpmath.nstr(mpmath.mpf(x), 25) for x in c0],
                                                  [mpmath.nstr(mpmath.mpf(x), 25) for x in cv]))
            else:
                found = 'improved'
                last = state['last']
                if last and last[0]:
                    sim.probes['restart-from-coarse'] += 1
                elif last and last[2] != repr(rel):
                    sim.probes['restart-other-energies'] += 1
                elif last and last[1] > s['tol']:
                    sim.probes['restart-tighter'] += 1
    trail.append((found, bool(op.get('fsolve')), bool(op.get('XRC'))))


def allowed(s, ads, c):
    """Comfortably physical (no constraint may change it)."""
    if min(num(x) for x in c) < 0:
        return False
    m = G.MECHANISMS[s['mech']]
    return all(sum((num(x) for a, x in zip(ads, c) if a.rsplit('_', 1)[1] == site), num(0)) <=
               num(t) * num(1 - 1e-12) for site, t in zip(m['sites'], s['totals']))
