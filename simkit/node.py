"""A node = one incarnation of a process that imports SCAKS.

Every node gets a *fresh* import of the code under test and its own logging
tree, numeric precision and random-number state, i.e. all the process-global
state the code depends on; these are swapped in when the node runs.
"""
import importlib
import io
import logging
import random
import sys
import types
import warnings
import weakref

import mpmath
import numpy as np

from . import kmcfake, mpi as mpimod

FOREIGN = ('scaks', 'KMCLib', 'mpi4py')
REPO = '/repo'


def _ours(name):
    return name.split('.', 1)[0] in FOREIGN


class Node(object):
    def __init__(self, sim, rank=0, world=None, with_mpi=True, rng_seed=0, name=''):
        self.sim, self.rank, self.world = sim, rank, world
        self.name = name or 'rank%d' % rank
        self.stderr = io.StringIO()
        self._mods = {}
        self._mp_prec = 53
        r = random.Random('node:%s:%s' % (rng_seed, rank))
        self._py_rng = r.getstate()
        self._np_rng = np.random.RandomState(r.randrange(2 ** 31)).get_state()
        root = logging.RootLogger(logging.WARNING)
        self._root = root
        self._manager = logging.Manager(root)
        self._depth = 0
        self._active = False
        if world is None:
            world = self.world = mpimod.World(sim, 1)
        if with_mpi:
            self._mods.update(mpimod.make_modules(world, rank))
        else:
            self._mods['mpi4py'] = None        # ImportError, as when not installed
        self._mods['KMCLib'] = kmcfake.make_module(sim)
        self.activate()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                importlib.import_module('scaks.models.micro_kinetic_model')
                importlib.import_module('scaks.models.kmc_model')
                importlib.import_module('scaks.mpicommons')
        finally:
            self.deactivate()

    # -- context switch ---------------------------------------------------
    def activate(self):
        self._depth += 1
        if self._depth == 1:
            self._swap_in()

    def resume(self):
        """The scheduler lets this process run (it may be inside ``with node``)."""
        self._depth += 1
        self._swap_in()

    def suspend(self):
        self._depth -= 1
        self._swap_out()

    def _swap_in(self):
        self._active = True
        self._prev_node = self.sim.node
        self.sim.node = self
        self._saved_mods = {n: m for n, m in sys.modules.items() if _ours(n)}
        for n in self._saved_mods:
            del sys.modules[n]
        sys.modules.update(self._mods)
        self._saved = (logging.Logger.manager, logging.Logger.root, logging.root,
                       mpmath.mp.prec, random.getstate(), np.random.get_state(),
                       sys.stderr, sys.stdout)
        logging.Logger.manager = self._manager
        logging.Logger.root = logging.root = self._root
        mpmath.mp.prec = self._mp_prec
        random.setstate(self._py_rng)
        np.random.set_state(self._np_rng)
        sys.stderr = self.stderr
        sys.stdout = io.StringIO()

    def deactivate(self):
        self._depth -= 1
        if not self._depth:
            self._swap_out()

    def _swap_out(self):
        self._active = False
        self._mods = {n: m for n, m in sys.modules.items() if _ours(n)}
        for n in self._mods:
            del sys.modules[n]
        sys.modules.update(self._saved_mods)
        self._mp_prec = mpmath.mp.prec
        self._py_rng = random.getstate()
        self._np_rng = np.random.get_state()
        (logging.Logger.manager, logging.Logger.root, logging.root,
         mpmath.mp.prec, st, nst, sys.stderr, sys.stdout) = self._saved
        random.setstate(st)
        np.random.set_state(nst)
        self.sim.node = self._prev_node

    def __enter__(self):
        self.activate()
        return self

    def __exit__(self, *a):
        self.deactivate()

    # -- convenience --------------------------------------------------------
    def mod(self, name):
        """A module of the code under test as this node sees it."""
        m = sys.modules.get(name) if self._active else self._mods.get(name)
        if m is None:
            with self:
                m = importlib.import_module(name)
        return m

    def handlers(self):
        out = []
        for lg in [self._root] + list(self._manager.loggerDict.values()):
            out.extend(getattr(lg, 'handlers', []))
        return out

    def close(self):
        """Close leftover log files (the process ends)."""
        for h in self.handlers():
            try:
                h.close()
            except BaseException:
                pass
