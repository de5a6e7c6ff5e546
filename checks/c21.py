"""C21 - see DESIGN.md."""
import contextlib
import copy
import os
import pickle
import sys

from checks import c11
from simkit import env as envmod, gen as G, mkm, thermo
from simkit.refmodel import Ref, close_list, ctx, num

ID = 'C21'
RUNS = {'quick': 900, 'thorough': 20000}
STEP_LIMIT = 30000000
REAL = ['scaks.solvers.*', 'scaks.parsers.*', 'scaks.correctors', 'scaks.descriptors',
        'scaks.models.micro_kinetic_model', 'sympy', 'mpmath', 'scipy']
STUBS = ['file operations', 'hybrid method (deterministic guesses)',
         'sympy evaluation may run out of memory']
ASSUMPTIONS = ['The reference (transition state theory and mass action, written from the physics) '
               'uses the energies in force according to the recorded history.',
               'Free energies are known (loaded) and symbols were made (get_data_symbols) before '
               'an expression is asked for.']
PROBES = ['held-expression', 'two-models', 'corrected', 'absolute', 'after-explicit-solve',
          'after-abort', 'symbols-again', 'latex', 'liquid', 'more-than-two-adsorbates',
          'archived', 'two-sites', 'user-edit']
FAULTS = ['evalf_memory', 'enospc', 'eio']
STATES = 'distinct (kind of query, energies by, model) sequences'
RULE = ('One or two models, a random history of loads, corrections, solutions and symbolic '
        'queries, some aborted by lack of memory or a full disk; nontrivial if symbolic queries '
        'were answered under two different sets of energies.')
GROUPS = ['data.pkl', 'formulas.tex']
QUERY = ['k', 'K', 'rates', 'net', 'tof', 'dtheta', 'jac']
UNSCALED = ('symbolic change rates of an adsorbate take every reaction once, whatever the number '
            'of its molecules consumed or produced')


def gen(rng, i, tier):
    n = rng.choice([1, 1, 2])
    ss, pools, parsers = [], [], []
    for _ in range(n):
        same = [ss[0]['mech']] if ss and rng.random() < 0.7 else G.MANY
        s = G.mkm(rng, same)
        if ss and rng.random() < 0.2:
            s['T'] = ss[0]['T']
        s['tol'] = rng.choice([1e-8, 1e-12])
        s['archived'] = [a for a in ('steady_state_coverages', 'rates', 'net_rates', 'tofs')
                         if n == 1 and rng.random() < 0.5]
        s['hybrid'] = G.hybrid(rng, s)
        ss.append(s)
        k = len(G.MECHANISMS[s['mech']]['rxns'])
        pool = [G.energies(rng, k) for _ in range(3)]
        if rng.random() < 0.3:
            pool[1] = copy.deepcopy(pool[0])
            pool[1][rng.choice(['Ga', 'dG'])][rng.randrange(k)] += rng.choice([0.01, 1e-4, 1e-7])
        pools.append(pool)
        parsers.append('AbsoluteEnergyParser' if rng.random() < 0.2 else 'RelativeEnergyParser')
    cs = [[G.guess(rng, s) for _ in range(2)] for s in ss]
    apools = [[c11.absolute(rng, s) for _ in range(2)] for s in ss]

    def load(j):
        if parsers[j] == 'AbsoluteEnergyParser':
            return {'op': 'abs', 'a': rng.choice(apools[j])}
        return {'op': rng.choice(['load', 'loadfile']), 'e': rng.choice(pools[j])}

    def fault(op):
        x = rng.random()
        if x < 0.06:
            op['fault'] = [{'site': 'evalf', 'at': rng.randint(0, 6), 'kind': 'memory'}]
        elif x < 0.10:
            op['fault'] = [{'site': 'write~' + rng.choice(GROUPS), 'at': 0,
                            'kind': rng.choice(['eio', 'enospc'])}]
        return op

    def script(j):
        s = ss[j]
        out = [{'op': 'build'}]
        start = [{'op': 'symbols'}, load(j)]
        rng.shuffle(start)
        out += start
        for _ in range(rng.randint(4, 12) if n == 1 else rng.randint(3, 7)):
            k = rng.choice(QUERY + ['sym', 'sym', 'sym', 'load', 'load', 'correct', 'symbols', 'hold',
                            'held', 'held', 'latex', 'numeric', 'solve', 'edit', 'subs'])
            if k == 'load':
                out.append(load(j))
                continue
            if k == 'correct':
                out.append({'op': 'correct', 'method': rng.choice(['shomate', 'entropy'])})
                continue
            if k == 'edit':
                out.append({'op': 'edit', 'what': rng.choice(
                    ['pressure', 'total', 'rxns', 'clear', 'T']), 'x': 0.3})
                continue
            op = {'c': rng.choice(cs[j]) if rng.random() < 0.7 else G.guess(rng, s)}
            if k in QUERY:
                op.update(op='sym', q=k)
                fault(op)
            elif k == 'sym':
                op.update(op='sym', q=rng.choice(QUERY))
                fault(op)
            elif k in ('hold', 'held'):
                op.update(op=k, q=rng.choice(['K', 'rates', 'net', 'tof']))
            elif k == 'latex':
                op.update(op='latex', q=rng.choice(['rates', 'dtheta']))
                fault(op)
            elif k == 'numeric':
                op.update(op=rng.choice(['k', 'rates', 'net', 'tof', 'dtheta']),
                          e=rng.choice(pools[j]), how='given')
            elif k == 'solve':
                op.update(op='solve', e=rng.choice(pools[j]) if rng.random() < 0.6 else None,
                          how='none')
            else:
                op.update(op=k)
            out.append(op)
        return out
    scripts = [script(j) for j in range(n)]
    ops = []
    while any(scripts):
        j = rng.choice([j for j in range(n) if scripts[j]])
        ops.append({'m': j, **scripts[j].pop(0)})
    return {'s': ss, 'parsers': parsers, 'ops': ops, 'faults': [], 'fs_groups': GROUPS}


def nontrivial(res):
    return res['counters'].get('energy_sets', 0) > 1


@contextlib.contextmanager
def evaluations(sim):
    """sympy's evaluation, as called by the code under test, may fail."""
    from sympy.core.evalf import EvalfMixin
    from sympy.matrices.matrixbase import MatrixBase
    real = {c: c.__dict__['evalf'] for c in (EvalfMixin, MatrixBase) if 'evalf' in c.__dict__}

    def patch(c):
        fn = real[c]

        def evalf(self, *a, **k):
            if not sim.in_oracle and \
                    sys._getframe(1).f_code.co_filename.startswith(envmod.PKG + os.sep):
                sim.counters['evaluations'] += 1
                for f in sim.fault_for('evalf'):
                    sim.fire('evalf_' + f['kind'])
                    raise MemoryError('injected')
            return fn(self, *a, **k)
        c.evalf = evalf
    for c in real:
        patch(c)
    try:
        yield
    finally:
        for c in real:
            c.evalf = real[c]


class One(object):
    """A model and what is known about it."""

    def __init__(self, sess, s):
        self.sess, self.s, self.ref = sess, s, Ref(s)
        self.cur = None
        self.ready = False
        self.held = {}
        self.explicit = self.aborted = False


def run(plan, sim, env):
    sets, trail = set(), []
    with evaluations(sim):
        node = env.node()
        with node:
            ones = []
            for j, s in enumerate(plan['s']):
                ones.append(One(mkm.Session(node, env, s, 'm%d' % j,
                                            extra={'parser': plan['parsers'][j]}), s))
            if len(ones) > 1:
                sim.probes['two-models'] += 1
            for i, op in enumerate(plan['ops']):
                sim.event('op', i, op['m'], op['op'], op.get('q', ''))
                o = ones[op['m']]
                try:
                    step(sim, env, o, op, 'operation %d (%s %s of model %d)' % (
                        i, op['op'], op.get('q', ''), op['m']), sets)
                finally:
                    sim.arm([])
                    env.fs.full = None
                trail.append((op['m'], op['op'], op.get('q')))
                if sim.violations and not all(c == 'unscaled-balance' for c, _ in sim.violations):
                    return
    sim.counters['energy_sets'] += len(sets)
    sim.state(tuple(trail))


def step(sim, env, o, op, what, sets):
    k, sess, s = op['op'], o.sess, o.s
    m = sess.model
    if m is None and k != 'build':
        return
    if k == 'build':
        sess.raw(op)
    elif k == 'abs':
        fn = 'abs_%s.py' % sess.name
        env.put(fn, 'absolute_energies = %r\n' % (op['a'],))
        m.parser.parse_data(filename=fn)
        o.cur = c11.rel_from_abs(s, op['a'])
        sim.probes['absolute'] += 1
    elif k in ('load', 'loadfile'):
        sess.raw(op)
        o.cur = Ref.relative(op['e'])
    elif k == 'correct':
        if o.cur is None:
            return
        sess.raw(op)
        o.cur = thermo.corrected(G.MECHANISMS[s['mech']]['rxns'], o.cur, op['method'],
                                 s['T'], s['pressure'])
        sim.probes['corrected'] += 1
    elif k == 'symbols':
        m.solver.get_data_symbols()
        if o.ready:
            sim.probes['symbols-again'] += 1
        o.ready = True
    elif k == 'edit':
        sess.raw(op)
        sim.probes['user-edit'] += 1
    elif o.cur is None:
        return
    elif k in ('k', 'rates', 'net', 'tof', 'dtheta', 'solve'):
        sess.raw(op)
        o.explicit |= op.get('e') is not None
    elif not o.ready:
        return
    else:
        query(sim, env, o, op, what, sets)
    if k in ('abs', 'load', 'loadfile', 'correct'):
        o.explicit = False
        with sim.judging('relative energies'):
            e = m.relative_energies
            for x in ('Gaf', 'Gar', 'dG'):
                sim.check(close_list(e[x], o.cur[x], 1e-9, 1e-12), 'energies',
                          lambda: '%s: %s is %s, expected %s' % (what, x, list(e[x]), o.cur[x]))
            o.cur = {x: [float(v) for v in e[x]] for x in o.cur}


def picture(env, m):
    raw = env.read('data.pkl')
    return (mkm.val(m.steady_state_coverages), mkm.val(m.solver.coverages),
            mkm.val(m.relative_energies), mkm.val(m.TOFs), mkm.val(m.reversibilities),
            {a: mkm.val(b) for a, b in (pickle.loads(raw) if raw else {}).items()})


def query(sim, env, o, op, what, sets):
    k, m, s = op['op'], o.sess.model, o.s
    so = m.solver
    with sim.oracle():
        before = picture(env, m)
        tex = env.read('formulas.tex') or b''
        ads, gases = list(m.adsorbate_names), list(m.gas_names)
        by = dict(zip(G.MECHANISMS[s['mech']]['ads'], op['c']))
        c = tuple(by[a] for a in ads)
    sim.arm(op.get('fault', []))
    try:
        if k == 'sym':
            r = {'k': so.get_rate_constants_by_sym, 'K': lambda: values(so, so.get_equilibrium_constant_syms(), None),
                 'rates': lambda: so.get_rates_by_sym(c), 'net': lambda: so.get_net_rates_by_sym(c),
                 'tof': lambda: so.get_tof_by_sym(c),
                 'dtheta': lambda: so.steady_state_function_by_sym(c),
                 'jac': lambda: so.analytical_jacobian_by_sym(c)}[op['q']]()
        elif k in ('hold', 'held'):
            if k == 'hold' or op['q'] not in o.held:
                o.held[op['q']] = {
                    'K': so.get_equilibrium_constant_syms, 'rates': so.get_rate_syms,
                    'net': so.get_net_rate_syms, 'tof': so.get_tof_syms}[op['q']]()
                sim.counters['held'] += 1
            else:
                sim.probes['held-expression'] += 1
            x = o.held[op['q']]
            r = [values(so, y, c) for y in x] if op['q'] == 'rates' else values(so, x, c)
        elif k == 'latex':
            r = so.get_rate_syms(log_latex=True) if op['q'] == 'rates' else \
                so.get_dtheta_dt_syms(log_latex=True)
        else:
            r = so.get_subs_dict(coverages=c)
    except (MemoryError, OSError) as e:
        if not sum(sim.fired.values()):
            raise
        o.aborted = True
        sim.event('aborted', type(e).__name__)
        with sim.judging('state after an aborted query'):
            after = picture(env, m)
            sim.check(after[:5] == before[:5], 'query-changes-state', lambda: '%s was aborted: the '
                      'reported state before and after differ: %s / %s' % (what, before[:5], after[:5]))
        return
    finally:
        sim.arm([])
    sets.add((op['m'], str(o.cur)))
    for name, cond in (('after-explicit-solve', o.explicit), ('after-abort', o.aborted),
                       ('liquid', s.get('conc')), ('more-than-two-adsorbates', len(ads) > 2),
                       ('two-sites', len(s['totals']) > 1)):
        if cond:
            sim.probes[name] += 1
    with sim.judging(what):
        judge(sim, env, o, op, what, r, c, ads, gases, tex)
        after = picture(env, m)
        sim.check(after[:5] == before[:5], 'query-changes-state', lambda: '%s: the reported '
                  'state before and after differ: %s / %s' % (what, before[:5], after[:5]))
        own = {'rates': 'rates', 'net': 'net_rates', 'tof': 'tofs'}.get(op.get('q')) \
            if k == 'sym' else None
        for a, b in after[5].items():
            if a == own:
                sim.probes['archived'] += 1
                sim.check(b in (mkm.val(r), mkm.val(tuple(r)), before[5].get(a)), 'wrong-archive',
                          lambda: '%s: %s in the archive is not what was returned' % (what, a))
            elif not o.aborted:       # (what a full disk kept back is written with the next)
                sim.check(b == before[5].get(a), 'query-changes-archive',
                          lambda: '%s: %s in the archive changed' % (what, a))


def values(so, exprs, c):
    """What a user makes of expressions: numbers, by the model's own conditions."""
    subs = so.get_subs_dict(coverages=c) if c is not None else so.get_subs_dict()
    return [float(e.evalf(subs=subs)) for e in exprs]


def unscaled(o, c, ks, ads):
    """The known defect: every reaction counts once, in the direction of its first mention."""
    rf, rr = o.ref.rates(c, ks, ads)
    out = []
    for a in ads:
        tot = ctx.mpf(0)
        for (left, right), f, r in zip(o.ref.rxns, rf, rr):
            if any(sp == a for _, sp in left):
                tot += r - f
            elif any(sp == a for _, sp in right):
                tot += f - r
        out.append(tot)
    return out


def derivative(fn, c):
    h = ctx.mpf(10) ** -40
    cols = []
    for j in range(len(c)):
        up = [num(x) for x in c]
        dn = list(up)
        up[j] += h
        dn[j] -= h
        cols.append([(a - b) / (2 * h) for a, b in zip(fn(up), fn(dn))])
    return [[cols[j][i] for j in range(len(c))] for i in range(len(c))]


def same(sim, got, want, what, scale=0, known=None):
    got, want = list(got), list(want)
    tol = num(1e-14) * num(scale)
    if close_list(got, want, 1e-11, tol):
        return
    if known is not None and close_list(got, known, 1e-11, tol):
        sim.fail('unscaled-balance', '%s: %s: got %s, expected %s' % (
            what, UNSCALED, [ctx.nstr(num(x), 12) for x in got], [ctx.nstr(x, 12) for x in want]))
        return
    sim.fail('wrong-value', '%s: got %s, expected %s' % (
        what, [ctx.nstr(num(x), 12) for x in got], [ctx.nstr(num(x), 12) for x in want]))


def judge(sim, env, o, op, what, r, c, ads, gases, tex):
    k, q, ref = op['op'], op.get('q'), o.ref
    ks = ref.k(o.cur)
    rf, rr = ref.rates(c, ks, ads)
    big = max(list(rf) + list(rr))
    if k == 'latex':
        import sympy
        sim.probes['latex'] += 1
        new = (env.read('formulas.tex') or b'')[len(tex):].decode()
        lists = list(r) if q == 'rates' else [r]
        want = [sympy.latex(e) for x in lists for e in x]
        lines = [x for x in new.split('\n') if x]
        got = [x.split(' = ', 1)[1] for x in lines]
        sim.check(got == [w + '\\\\' for w in want], 'wrong-latex',
                  lambda: '%s: formulas.tex got %s, expected %s' % (what, lines, want))
        subs = o.sess.model.solver.get_subs_dict(coverages=c)
        r = [[float(e.evalf(subs=subs)) for e in x] for x in lists]
        if q == 'rates':
            same(sim, r[0], rf, what)
            same(sim, r[1], rr, what)
        else:
            same(sim, r[0], ref.dtheta(c, ks, ads), what, big, unscaled(o, c, ks, ads))
    elif k == 'subs':
        want = {'kB': ref_const('kB'), 'h': ref_const('h'), 'T': o.s['T']}
        for g, p in o.s['pressure'].items():
            want['p_' + g] = p
        for l, x in o.s.get('conc', {}).items():
            want['c_' + l] = x
        for a, x in zip(ads, c):
            want['theta_' + a] = x
        for j in range(len(rf)):
            want['Ga_%d' % j] = o.cur['Gaf'][j]
            want['dG_%d' % j] = o.cur['dG'][j]
        got = {str(a): b for a, b in r.items()}
        sim.check(set(got) == set(want), 'wrong-substitutions', lambda: '%s: for %s, expected %s' % (
            what, sorted(got), sorted(want)))
        for a in sorted(set(got) & set(want)):
            same(sim, [float(got[a])], [want[a]], what + ' ' + a)
    elif q == 'k':
        same(sim, r[0], ks[0], what)
        same(sim, r[1], ks[1], what)
    elif q == 'K':
        same(sim, r, [a / b for a, b in zip(*ks)], what)
    elif q == 'rates':
        same(sim, r[0], rf, what)
        same(sim, r[1], rr, what)
    elif q == 'net':
        same(sim, r, [a - b for a, b in zip(rf, rr)], what, big)
    elif q == 'tof':
        same(sim, r, ref.tof(c, ks, gases, ads), what, big)
    elif q == 'dtheta':
        same(sim, r, ref.dtheta(c, ks, ads), what, big, unscaled(o, c, ks, ads))
    elif q == 'jac':
        n = len(ads)
        want = derivative(lambda x: ref.dtheta(x, ks, ads), c)
        known = derivative(lambda x: unscaled(o, x, ks, ads), c)
        top = max(list(ks[0]) + list(ks[1]))
        sim.check((r.rows, r.cols) == (n, n), 'wrong-shape', what)
        for a in range(n):
            same(sim, [r[a, b] for b in range(n)], want[a], what, top, known[a])


def ref_const(n):
    from simkit import refmodel
    return {'kB': refmodel.KB, 'h': refmodel.H}[n]
