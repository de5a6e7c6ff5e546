"""A small, seeded lattice kMC engine with the KMCLib(X) interface SCAKS uses.

KMCLib itself is not installed in this sandbox, so the *engine* is a stand-in.
The SCAKS side (model, parser, solver, analysis plugins) is the real code.  The
engine keeps its own exact history of what happened; that history is the ground
truth the analysis output is compared with.

Conventions taken from SCAKS' own use of KMCLibX: ``interactions.pickedIndex()``,
``processAvailableSites()`` and ``processRates()`` are indexed over the non-fast
processes in creation order; plugins get ``setup(step, time, configuration,
interactions)``, ``registerStep(...)`` and ``finalize()``.
"""
import types
from random import Random


class KMCAnalysisPlugin(object):
    def __init__(self):
        pass

    def setup(self, step, time, configuration, interactions):
        pass

    def registerStep(self, step, time, configuration, interactions):
        pass

    def finalize(self):
        pass


class KMCUnitCell(object):
    def __init__(self, cell_vectors, basis_points):
        self.cell_vectors, self.basis_points = cell_vectors, basis_points

    def basis(self):
        return [tuple(float(x) for x in b) for b in self.basis_points]


class KMCLattice(object):
    def __init__(self, unit_cell, repetitions, periodic):
        self.unit_cell = unit_cell
        self.repetitions = tuple(repetitions)
        self.periodic = tuple(periodic)

    def site_count(self):
        a, b, c = self.repetitions
        return a * b * c * len(self.unit_cell.basis())

    def index(self, cell, basis):
        na, nb, nc = self.repetitions
        nbasis = len(self.unit_cell.basis())
        return ((cell[0] * nb + cell[1]) * nc + cell[2]) * nbasis + basis

    def locate(self, cell, pos):
        """Site index at fractional position *pos* relative to *cell*."""
        import math
        base, frac = [], []
        for x in pos:
            f = math.floor(x + 1e-6)
            base.append(int(f))
            frac.append(x - f)
        b = None
        for i, p in enumerate(self.unit_cell.basis()):
            if all(abs(p[k] - frac[k]) < 1e-5 for k in range(3)):
                b = i
                break
        if b is None:
            return None
        c = []
        for k in range(3):
            v = cell[k] + base[k]
            n = self.repetitions[k]
            if v < 0 or v >= n:
                if not self.periodic[k]:
                    return None
                v %= n
            c.append(v)
        return self.index(c, b)

    def cells(self):
        na, nb, nc = self.repetitions
        for i in range(na):
            for j in range(nb):
                for k in range(nc):
                    yield (i, j, k)


class Error(Exception):
    """KMCLib refuses invalid input with an exception of this name."""


def _check_types(lattice, types, possible_types):
    if not isinstance(types, (list, tuple)) or len(types) != lattice.site_count():
        raise Error('The length of the types must match the lattice.')
    for t in types:
        if t not in possible_types:
            raise Error('Unknown type %r.' % (t,))


class KMCConfiguration(object):
    def __init__(self, lattice, types, possible_types):
        _check_types(lattice, types, possible_types)
        self.lattice = lattice
        self._types = list(types)
        self._possible = list(possible_types)

    def types(self):
        return list(self._types)

    def possibleTypes(self):
        return {t: i for i, t in enumerate(['*'] + self._possible)}

    def lattice_(self):
        return self.lattice

    def _script(self, variable_name='configuration'):
        return '%s = KMCConfiguration(types=%r)\n' % (variable_name, self._types)


class KMCSitesMap(object):
    def __init__(self, lattice, types, possible_types):
        _check_types(lattice, types, possible_types)
        self.lattice, self._types, self._possible = lattice, list(types), list(possible_types)

    def types(self):
        return list(self._types)

    def _script(self, variable_name='sitesmap'):
        return '%s = KMCSitesMap(types=%r)\n' % (variable_name, self._types)


class KMCProcess(object):
    def __init__(self, coordinates, elements_before, elements_after, basis_sites,
                 rate_constant, site_types=None, fast=False, redist=False,
                 redist_species=None, move_vectors=None, cache_rate=False):
        self._coordinates = [tuple(float(x) for x in c) for c in coordinates]
        self._elements_before = list(elements_before)
        self._elements_after = list(elements_after)
        self._basis_sites = list(basis_sites)
        self._rate_constant = rate_constant
        self._fast, self._redist = fast, redist
        self._redist_species = redist_species

    def rateConstant(self):
        return self._rate_constant

    def coordinates(self):
        return self._coordinates

    def elementsBefore(self):
        return self._elements_before

    def elementsAfter(self):
        return self._elements_after

    def basisSites(self):
        return self._basis_sites

    def fast(self):
        return self._fast

    def redist(self):
        return self._redist

    def _script(self, variable_name='process'):
        return '%s = KMCProcess(%r, %r, %r, %r, %r)\n' % (
            variable_name, self._coordinates, self._elements_before,
            self._elements_after, self._basis_sites, self._rate_constant)


class KMCInteractions(object):
    def __init__(self, processes, implicit_wildcards=True, **kw):
        self._all = list(processes)
        self._processes = [p for p in processes if not p._fast]
        self._fastp = [p for p in processes if p._fast]
        self._avail = [0] * len(self._processes)
        self._picked = -1
        self._wild = implicit_wildcards

    def pickedIndex(self):
        return self._picked

    def processAvailableSites(self):
        return list(self._avail)

    def processRates(self):
        return [float(p._rate_constant) for p in self._processes]

    def processes(self):
        return list(self._all)

    def _script(self, variable_name='interactions'):
        return ''.join(p._script('process_%d' % i) for i, p in enumerate(self._all))


class KMCControlParameters(object):
    def __init__(self, number_of_steps=0, dump_interval=1, seed=None, rng_type='MT',
                 analysis_interval=None, start_time=0.0, extra_traj=None,
                 do_redistribution=False, time_limit=float('inf'),
                 redistribution_interval=1, fast_species=None, nsplits=(1, 1, 1),
                 distributor_type='RandomDistributor', empty_element='V', **kw):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})


class KMCLatticeModel(object):
    def __init__(self, configuration, sitesmap, interactions):
        self.configuration, self.sitesmap = configuration, sitesmap
        self.interactions = interactions

    def _script(self, variable_name='model'):
        return (self.configuration._script() + self.sitesmap._script() +
                self.interactions._script())

    # -- matching ---------------------------------------------------------
    def _matches(self, p):
        lat = self.configuration.lattice
        types = self.configuration._types
        basis = lat.unit_cell.basis()
        out = []
        for cell in lat.cells():
            for b in p._basis_sites:
                origin = basis[b]
                c0 = p._coordinates[0]
                idxs = []
                for c, el in zip(p._coordinates, p._elements_before):
                    pos = [origin[k] + c[k] - c0[k] for k in range(3)]
                    i = lat.locate(cell, pos)
                    if i is None or (el != '*' and types[i] != el):
                        idxs = None
                        break
                    idxs.append(i)
                if idxs is not None:
                    out.append(idxs)
        return out

    def _fresh(self):
        self._match = [self._matches(p) for p in self.interactions._processes]
        self.interactions._avail = [len(m) for m in self._match]

    def run(self, control_parameters, trajectory_filename=None,
            trajectory_type='lattice', analysis=None, breakers=None):
        sim = self._sim
        cp = control_parameters
        eng = sim.plan.get('engine', {})
        rng = Random('engine:%s:%s' % (cp.seed, eng.get('salt', 0)))
        inter, conf = self.interactions, self.configuration
        plugins = list(analysis or [])
        iv = cp.analysis_interval
        if iv is None:
            ivs = [1] * len(plugins)
        elif isinstance(iv, int):
            ivs = [iv] * len(plugins)
        else:
            ivs = [(iv[i] if i < len(iv) else 1) for i in range(len(plugins))]
        hist = {'setup': None, 'steps': [], 'plugins': [type(p).__name__ for p in plugins],
                'intervals': list(ivs), 'cp': cp, 'finalized': False,
                'processes': inter._all, 'aborted': False,
                'rank': sim.node.rank if sim.node else 0,
                'start': conf.types(), 'sites': self.sitesmap.types(),
                'lattices': (conf.lattice, self.sitesmap.lattice),
                'trajectory': (trajectory_filename, trajectory_type),
                'wildcards': inter._wild, 'script': self._script()}
        sim.kmc_histories.append(hist)
        try:
            self._go(sim, cp, eng, rng, inter, conf, plugins, ivs, hist)
        finally:
            hist['end'] = conf.types()

    def _go(self, sim, cp, eng, rng, inter, conf, plugins, ivs, hist):
        t = float(cp.start_time)
        inter._picked = -1
        self._fresh()
        hist['setup'] = (0, t, conf.types(), list(inter._avail))
        for p in plugins:
            p.setup(0, t, conf, inter)
        nstep = cp.number_of_steps
        scale = float(eng.get('time_scale', 1.0))
        for step in range(1, nstep + 1):
            sim.yield_point('kmc-step')
            rates = [n * r for n, r in zip(inter._avail, inter.processRates())]
            tot = sum(rates)
            if not tot > 0.0:
                break
            if eng.get('uniform'):
                ok = [i for i, n in enumerate(inter._avail) if n]
                k = ok[rng.randrange(len(ok))]
            else:
                x = rng.random() * tot
                k = 0
                for k, r in enumerate(rates):
                    x -= r
                    if x < 0 and r > 0:
                        break
                while inter._avail[k] == 0:
                    k = (k + 1) % len(rates)
            where = self._match[k][rng.randrange(len(self._match[k]))]
            proc = inter._processes[k]
            for i, el in zip(where, proc._elements_after):
                if el != '*':
                    conf._types[i] = el
            import math
            dt = -math.log(1.0 - rng.random() * 0.999999) * scale
            if eng.get('fixed_dt'):
                dt = eng['fixed_dt'] * scale
            gap = eng.get('gaps') or {}
            dt *= float(gap.get(str(step), 1.0))
            t += dt
            if t > cp.time_limit:
                break
            sim.sim_seconds += dt
            inter._picked = k
            if (cp.do_redistribution and step % cp.redistribution_interval == 0 and
                    cp.fast_species):
                self._redistribute(cp, rng)
            self._fresh()
            hist['steps'].append((step, t, conf.types(), k, list(inter._avail)))
            for p, n in zip(plugins, ivs):
                if step % n == 0:
                    p.registerStep(step, t, conf, inter)
            if eng.get('kill_after') == step:
                sim.env.fs.crash('kill_between_steps')
            if eng.get('abort_after') == step:
                hist['aborted'] = True
                sim.fire('engine_abort')
                raise KMCAborted('engine stopped after step %d' % step)
        for p in plugins:
            p.finalize()
        hist['finalized'] = True

    def _redistribute(self, cp, rng):
        types = self.configuration._types
        idx = [i for i, x in enumerate(types)
               if x in cp.fast_species or x == cp.empty_element]
        vals = [types[i] for i in idx]
        rng.shuffle(vals)
        for i, v in zip(idx, vals):
            types[i] = v


class KMCAborted(Exception):
    """The engine failed (as KMCLib does on an internal error)."""


def make_module(sim):
    m = types.ModuleType('KMCLib')
    if not hasattr(sim, 'kmc_histories'):
        sim.kmc_histories = []
    lm = type('KMCLatticeModel', (KMCLatticeModel,), {'_sim': sim})
    names = dict(KMCAnalysisPlugin=KMCAnalysisPlugin, KMCUnitCell=KMCUnitCell,
                 KMCLattice=KMCLattice, KMCConfiguration=KMCConfiguration,
                 KMCSitesMap=KMCSitesMap, KMCProcess=KMCProcess,
                 KMCInteractions=KMCInteractions,
                 KMCControlParameters=KMCControlParameters, KMCLatticeModel=lm)
    for k, v in names.items():
        setattr(m, k, v)
    m.__all__ = sorted(names)
    return m
