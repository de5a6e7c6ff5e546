"""Mean-field models under the simulator: sessions, seams and helpers.

A *session* is the list of operations one user performs on one model through
the public interface; every operation yields an exact, comparable value.
"""
import contextlib
import math

import mpmath
import numpy as np

from . import gen as G
from .core import GaveUp, SimAbort
from .refmodel import Ref, num


# -- exact values --------------------------------------------------------------
def val(x):
    """An exact, hashable picture of a returned value."""
    if isinstance(x, (list, tuple)):
        return tuple(val(y) for y in x)
    if hasattr(x, '_mpf_'):
        return ('m',) + tuple(int(y) for y in x._mpf_)
    if isinstance(x, np.ndarray):
        return tuple(val(y) for y in x.tolist())
    if isinstance(x, mpmath.matrix) or hasattr(x, 'tolist'):
        return val(x.tolist())
    if isinstance(x, (bool, str, type(None))):
        return x
    if isinstance(x, int):
        return ('i', x)
    if isinstance(x, float):
        return ('f', x.hex())
    if isinstance(x, dict):
        return tuple(sorted((k, val(v)) for k, v in x.items()))
    return repr(x)


def finite(x):
    try:
        return math.isfinite(float(x))
    except (TypeError, ValueError, OverflowError):
        return False


# -- seams at the edge of the numeric libraries ----------------------------------
@contextlib.contextmanager
def linear_solves(sim):
    """mpmath.lu_solve: counts solves; a planned one may fail or be disturbed.

    Must be entered before the process imports the code under test.
    """
    ctx = mpmath.mp
    real = ctx.lu_solve
    stat = {'n': 0, 'ok': 0, 'sink': []}

    def lu_solve(*a, **k):
        if sim.in_oracle:
            return real(*a, **k)
        stat['n'] += 1
        sim.counters['linear_solves'] += 1
        for f in sim.fault_for('lu'):
            sim.fire('lu_' + f['kind'])
            stat['sink'].append(('lu', False))
            if f['kind'] == 'singular':
                raise ZeroDivisionError('matrix is numerically singular')
            if f['kind'] == 'raise':
                raise MemoryError('injected')
        try:
            r = real(*a, **k)
        except (ZeroDivisionError, TypeError):
            stat['sink'].append(('lu', False))
            raise
        stat['ok'] += 1
        stat['sink'].append(('lu', True, r))
        return r
    had = 'lu_solve' in ctx.__dict__
    ctx.lu_solve = lu_solve
    mpmath.lu_solve = lu_solve
    try:
        yield stat
    finally:
        if had:
            ctx.lu_solve = real
        else:
            del ctx.lu_solve
        mpmath.lu_solve = real


@contextlib.contextmanager
def integrations(sim):
    """scipy's ode.integrate: records every step; a planned one may fail."""
    import scipy.integrate
    cls = scipy.integrate.ode
    real = cls.integrate
    stat = {'trace': []}

    def integrate(self, t, *a, **k):
        if sim.in_oracle:
            return real(self, t, *a, **k)
        sim.counters['ode_steps'] += 1
        for f in sim.fault_for('ode'):
            sim.fire('ode_' + f['kind'])
            if f['kind'] == 'stall':
                # the integrator gives up where it is
                self._integrator.success = 0
                stat['stalled'] = True
            elif f['kind'] == 'interrupt':
                raise KeyboardInterrupt('injected')
            elif f['kind'] == 'memory':
                raise MemoryError('injected')
            elif f['kind'] == 'error':
                raise RuntimeError('injected')
        if stat.get('stalled'):
            return self._y
        t0 = self.t
        y = real(self, t, *a, **k)
        sim.sim_seconds += max(0.0, float(self.t - t0))
        odd = stat.get('odd', {}).get(str(len(stat['trace'])))
        if odd:                # what integrators really return now and then
            sim.fire('ode_odd')
            y = self._y = self._y.copy()
            y[odd[0] % len(y)] = odd[1]
        point = (float(self.t), [float(v) for v in self._y])
        stat['trace'].append(point)
        if 'ranks' in stat:
            stat['ranks'].setdefault(sim.node.rank, []).append(point)
        return y
    cls.integrate = integrate
    try:
        yield stat
    finally:
        cls.integrate = real


MAX_GUESSES = 25


# -- sessions --------------------------------------------------------------------
def rel_of(e):
    """Explicit energies handed to a call."""
    return G.explicit(e) if e is not None else None


def kw_energies(op):
    """relative_energies left out, given as None, or given."""
    how = op.get('how', 'given' if op.get('e') is not None else 'none')
    if op.get('e') is not None:
        return {'relative_energies': rel_of(op['e'])}
    return {} if how == 'absent' else {'relative_energies': None}


def recorder(node, out, interval, tag=None, on_step=None):
    base = node.mod('scaks.plugins.analysis').OnTheFlyAnalysis
    iv = interval

    class Rec(base):
        interval = iv

        def setup(self, model, outer_counter):
            out.append(('setup', tag, outer_counter))

        def register_step(self, model, inner_counter, outer_counter):
            out.append(('step', tag, inner_counter, outer_counter,
                        val(model.solver.coverages), val(model.solver.error)))
            if on_step is not None:
                on_step(model)

        def finalize(self, model, outer_counter):
            out.append(('fin', tag, outer_counter))
    return Rec


def instance_recorder(node, interval):
    base = node.mod('scaks.plugins.analysis').OnTheFlyAnalysis
    iv = interval

    class Rec(base):
        interval = iv

        def __init__(self):
            self.seen = []

        def setup(self, model, outer_counter):
            self.seen.append(('setup', outer_counter))

        def register_step(self, model, inner_counter, outer_counter):
            self.seen.append(('step', inner_counter, outer_counter, val(model.solver.coverages)))

        def finalize(self, model, outer_counter):
            self.seen.append(('fin', outer_counter))
    return Rec


class Session(object):
    """One user's model.  *env* writes the files the user prepares."""

    def __init__(self, node, env, s, name='a', extra=None):
        self.node, self.env, self.s, self.name = node, env, s, name
        self.model = None
        self.setup = None
        self.extra = extra or {}
        self.records = []
        self.on_step = None
        self.hyb = []
        self.tried = 0
        self.common = {}

    def hybrid(self):
        """Deterministic new guesses (counts its own calls).

        Some systems have a steady state so close to the edge that none of these
        guesses leads to it; the user then stops (what is due is C15's question).
        """
        r = [0]

        def fn(model, n):
            self.hyb.append(n)
            r[0] += 1
            self.tried += 1
            if self.tried > MAX_GUESSES:
                self.node.sim.kill()
                raise GaveUp('%d guesses' % MAX_GUESSES)
            g = dict(zip(G.MECHANISMS[self.s['mech']]['ads'],
                         G.next_guess(self.s, self.s['hybrid'], r[0])))
            return tuple(g[a] for a in model.adsorbate_names)
        return fn

    def do(self, op):
        try:
            return ('ok', val(self._do(op)))
        except SimAbort:
            raise
        except Exception as e:
            return ('raised', type(e).__name__)

    def raw(self, op):
        return self._do(op)

    def _do(self, op):
        self.tried = 0
        k = op['op']
        m = self.model
        if k == 'build':
            MKM = self.node.mod('scaks.models.micro_kinetic_model').MicroKineticModel
            self.setup = G.setup_dict(self.s, **self.extra)
            self.model = m = G.construct(MKM, self.setup, self.env, self.s,
                                        logger_level=op.get('level', 30))
            m.solver.get_data()
            if self.s.get('hybrid') is not None:
                m.hybrid_method_register(self.hybrid())
            return None
        if k == 'load':
            m.parser.parse_data(energy_data={x: list(v) for x, v in op['e'].items()})
            return None
        if k == 'loadfile':
            fn = op.get('file', 'energies_%s.py' % self.name)
            self.env.put(fn, 'Ga = %r\ndG = %r\n' % (op['e']['Ga'], op['e']['dG']))
            m.parser.parse_data(filename=fn)
            return None
        if k == 'correct':
            m.corrector.correct_relative_energies(m.relative_energies, method=op['method'])
            return None
        if k == 'newsolver':       # parts of a model may be exchanged
            S = self.node.mod('scaks.solvers.steady_state_solver').SteadyStateSolver
            m.set_solver(S(m))
            m.solver.get_data()
            return None
        if k == 'newcorrector':
            C = self.node.mod('scaks.correctors.thermodynamic_corrector').ThermodynamicCorrector
            m.set_corrector(C(m))
            return None
        if k == 'energies':
            return m.relative_energies
        if k == 'k':
            kw = kw_energies(op)
            if op.get('log'):
                kw['log'] = True
            return m.solver.get_rate_constants(**kw)
        if k == 'rates':
            return m.solver.get_rates(tuple(op['c']), **kw_energies(op))
        if k == 'net':
            return m.solver.get_net_rates(tuple(op['c']), **kw_energies(op))
        if k == 'tof':
            return m.solver.get_tof(tuple(op['c']), gas_name=op.get('gas'), **kw_energies(op))
        if k == 'resid':
            return m.solver.get_residual(tuple(op['c']), **kw_energies(op))
        if k == 'dtheta':
            return m.solver.steady_state_function(tuple(op['c']), **kw_energies(op))
        if k == 'jac':
            return m.solver.analytical_jacobian(tuple(op['c']), **kw_energies(op))
        if k == 'rev':
            f, r = m.solver.get_rates(tuple(op['c']), **kw_energies(op))
            return m.solver.get_reversibilities(f, r)
        if k == 'solve':
            return m.solver.get_steady_state_cvgs(
                c0=tuple(op['c']) if op.get('c') is not None else None,
                single_pt=op.get('single', False), **kw_energies(op))
        if k == 'run':
            kw = kw_energies(op)
            for a in ('XRC', 'epsilon', 'product_name', 'fsolve'):
                if a in op:
                    kw[a] = op[a]
            m.run(init_cvgs=list(op['c']) if op.get('c') is not None else None,
                  coarse_guess=op.get('coarse', False), **kw)
            return (m.steady_state_coverages, m.TOFs, m.reversibilities, m.error)
        if k == 'xrc':
            return m.solver.get_single_XRC(op['gas'], epsilon=op.get('eps'), **kw_energies(op))
        if k == 'coarse':
            return m.solver.coarse_steady_state_cvgs(c0=list(op['c']), **kw_energies(op))
        if k == 'ode':
            return m.solver.solve_ode(time_end=op['end'], time_span=op['span'],
                                      initial_cvgs=list(op['c']), **kw_energies(op))
        if k == 'query':
            return (m.steady_state_coverages, m.TOFs, m.reversibilities, m.solver.coverages)
        if k == 'plugin':
            if op.get('common'):
                # one class for all models; what it saw is kept in the instance
                if op['interval'] not in self.common:
                    self.common[op['interval']] = instance_recorder(self.node, op['interval'])
                m.analysis_register(self.common[op['interval']])
            else:
                m.analysis_register(recorder(self.node, self.records, op['interval'],
                                             on_step=self._step))
            return None
        if k == 'records':
            r = [tuple(self.records)]
            del self.records[:]
            for a in m.analysis:
                if hasattr(a, 'seen'):
                    r.append(tuple(a.seen))
            return tuple(r)
        if k == 'info':
            return (m.temperature, m.adsorbate_names, m.gas_names, m.site_names,
                    m.species_definitions, list(m.rxn_expressions), m.tolerance,
                    list(m.archived_variables), len(m.analysis))
        if k == 'edit':
            # the user goes on using the dictionary the model was built from
            d = self.setup
            what = op['what']
            if 'rxn_expressions' not in d:
                return None
            if what == 'pressure':
                for g in self.s['pressure']:
                    d['species_definitions'][g]['pressure'] = op['x']
            elif what == 'total':
                for sp in list(d['species_definitions']):
                    if sp.startswith('*'):
                        d['species_definitions'][sp]['total'] = op['x']
            elif what == 'rxns':
                d['rxn_expressions'].append('CO_g + *_s -> CO_s')
            elif what == 'rxns-reverse':
                d['rxn_expressions'].reverse()
            elif what == 'clear':
                d['species_definitions'].clear()
                d.clear()
            elif what == 'T':
                d['temperature'] = 300.0 + 100 * op['x']
            return None
        if k == 'drop':
            self.model = self.setup = None
            import gc
            gc.collect()
            return None
        raise ValueError(k)

    def _step(self, model):
        if self.on_step is not None:
            self.on_step(self)


# -- oracles ---------------------------------------------------------------------
def physical(sim, s, ads_names, cvgs, what):
    """No coverage negative, no site over-occupied."""
    m = G.MECHANISMS[s['mech']]
    ok = True
    for a, c in zip(ads_names, cvgs):
        ok &= sim.check(num(c) >= -1e-25, 'negative-coverage', '%s: coverage of %s is %s' % (
            what, a, float(c)))
    for site, tot in zip(m['sites'], s['totals']):
        occ = sum((num(c) for a, c in zip(ads_names, cvgs)
                   if a.rsplit('_', 1)[1] == site), num(0.0))
        ok &= sim.check(occ <= num(tot) + num(1e-15), 'over-occupied',
                        '%s: site %s holds %s of %s' % (what, site, float(occ), tot))
    return ok


def grain(s, cvgs):
    """Relative rounding of rates: coverages given as doubles are used as such."""
    if all(hasattr(c, '_mpf_') for c in cvgs):
        return num(10) ** (-(s['dps'] - 6))
    return num(2e-15)


def meaningful(s, ref, ads_names, cvgs):
    """Is the free share of every site more than a rounding residue?"""
    free = [abs(x) for sp, x in ref.theta(cvgs, ads_names).items() if sp.startswith('*')]
    digits = s['dps'] if all(hasattr(c, '_mpf_') for c in cvgs) else 24
    return min(free) > num(10) ** (12 - digits)


def converged(sim, s, ads_names, cvgs, rel, what, tol=None):
    tol = s['tol'] if tol is None else tol
    ref = Ref(s)
    ks = ref.k(rel)
    r = max(abs(x) for x in ref.dtheta(cvgs, ks, ads_names))
    slack = grain(s, cvgs) * max(list(ks[0]) + list(ks[1]))
    return sim.check(r <= num(tol) * (1 + num(1e-6)) + slack, 'not-converged',
                     '%s: largest coverage change rate is %.3e, tolerance %.1e' % (
                         what, float(r), tol))
