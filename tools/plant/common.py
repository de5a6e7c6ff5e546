"""Helpers of the demonstrations: everything happens in the current (scratch) directory."""
import logging
import multiprocessing
import os
import pickle
import sys
import traceback
import types


# ---------------------------------------------------------------- kMC engine stub
def stub_kmclib():
    mod = types.ModuleType('KMCLib')

    class KMCAnalysisPlugin(object):
        def __init__(self, *args, **kwargs):
            pass

    mod.KMCAnalysisPlugin = KMCAnalysisPlugin
    names = ['KMCAnalysisPlugin']

    def record(name):
        class Record(object):
            def __init__(self, *args, **kwargs):
                self.args = args
                self.__dict__.update(kwargs)

            def _script(self, *args):
                return '# %s\n' % name

        Record.__name__ = name
        setattr(mod, name, Record)
        names.append(name)

    for n in ('KMCInteractions', 'KMCProcess', 'KMCControlParameters', 'KMCSitesMap',
              'KMCLattice', 'KMCUnitCell', 'KMCConfiguration', 'KMCLatticeModel'):
        record(n)
    mod.__all__ = names
    sys.modules['KMCLib'] = mod
    return mod


class Interactions(object):
    def __init__(self, picked=0, available=(), rates=()):
        self._p, self._a, self._r = picked, list(available), list(rates)

    def pickedIndex(self):
        return self._p

    def processAvailableSites(self):
        return list(self._a)

    def processRates(self):
        return list(self._r)


class Configuration(object):
    def __init__(self, site_types):
        self._t = list(site_types)

    def types(self):
        return list(self._t)


class KModel(object):
    """The attributes of a kMC model that the analysis plugins use."""

    def __init__(self, **kw):
        self.__dict__.update(dict(
            coverage_ratios=[1.0], possible_element_types=['V', 'A'], empty_type='V',
            processes=[0, 1], process_mapping=['r1(->)', 'r1(<-)'], tof_start=0,
            tof_interval=1.0, repetitions=(2, 2, 1), basis_sites=[[0.0, 0.0, 0.0]]))
        self.__dict__.update(kw)
        self.solver = self


def load(filename):
    d = {}
    exec(open(filename).read(), {}, d)
    return d


# ---------------------------------------------------------------- MPI stub
def stub_mpi(rank, size, barrier, box):
    class Comm(object):
        n = 0

        def Get_rank(self):
            return rank

        def Get_size(self):
            return size

        def barrier(self):
            barrier.wait(20)

        Barrier = barrier

        def allgather(self, data):
            self.n += 1
            with open(os.path.join(box, '%d_%d' % (self.n, rank)), 'wb') as f:
                pickle.dump(data, f)
            self.barrier()
            out = []
            for r in range(size):
                with open(os.path.join(box, '%d_%d' % (self.n, r)), 'rb') as f:
                    out.append(pickle.load(f))
            self.barrier()
            return out

        def bcast(self, data, root=0):
            return self.allgather(data)[root]

    mod = types.ModuleType('mpi4py')
    mod.MPI = types.ModuleType('mpi4py.MPI')
    mod.MPI.COMM_WORLD = Comm()
    sys.modules['mpi4py'] = mod
    sys.modules['mpi4py.MPI'] = mod.MPI


def ranks(size, func):
    """func(rank) in `size` processes; True if all of them end well."""
    ctx = multiprocessing.get_context('fork')
    barrier = ctx.Barrier(size)
    box = os.path.abspath('box')
    os.makedirs(box, exist_ok=True)

    def one(rank):
        try:
            stub_mpi(rank, size, barrier, box)
            func(rank)
        except BaseException:
            traceback.print_exc()
            os._exit(1)
        os._exit(0)

    procs = [ctx.Process(target=one, args=(r,)) for r in range(size)]
    for p in procs:
        p.start()
    good = True
    for p in procs:
        p.join(60)
        if p.exitcode != 0:
            good = False
            p.kill()
    return good


# ---------------------------------------------------------------- mean-field models
RXNS = ['CO_g + *_s -> CO_s',
        'O2_g + 2*_s -> 2O_s',
        'CO_s + O_s <-> CO-O_s + *_s -> CO2_g + 2*_s']
GA = [0.0, 0.0, 0.55]
DG = [-0.2, -0.25, -0.4]


def setup(**kw):
    d = dict(rxn_expressions=list(RXNS),
             species_definitions={'CO_g': {'pressure': 1.0}, 'O2_g': {'pressure': 1. / 3.},
                                  'CO2_g': {'pressure': 0.1},
                                  '*_s': {'site_name': '111', 'type': 'site', 'total': 1.0}},
             temperature=500.0, parser='RelativeEnergyParser', solver='SteadyStateSolver',
             corrector='ThermodynamicCorrector', decimal_precision=50, tolerance=1e-12)
    d.update(kw)
    return d


def mkm(ga=GA, dg=DG, **kw):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    level, load = kw.pop('logger_level', logging.ERROR), kw.pop('load', True)
    model = MicroKineticModel(setup_dict=setup(**kw), logger_level=level)
    if not load:
        return model
    model.parser.parse_data(energy_data={'Ga': list(ga), 'dG': list(dg)})
    model.solver.get_data()
    return model


def check(ok, text):
    if not ok:
        print('BROKEN: ' + text)
        sys.stdout.flush()
        os._exit(1)
