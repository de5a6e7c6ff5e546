"""A simulated MPI world with the part of the mpi4py interface a library may use.

Collectives are real rendezvous between the simulated ranks: a rank that enters
parks, and is released by the scheduler at an arbitrary later point.  Payloads
are pickled, as mpi4py does, so ranks never share objects.
"""
import pickle
import types
from functools import reduce as _reduce

from .core import HarnessError

_OPS = {'SUM': lambda a, b: a + b, 'PROD': lambda a, b: a * b,
        'MAX': max, 'MIN': min,
        'LAND': lambda a, b: bool(a and b), 'LOR': lambda a, b: bool(a or b)}


class World(object):
    def __init__(self, sim, size):
        self.sim, self.size = sim, size
        self.epoch = [0] * size         # collectives entered, per rank
        self.calls = {}                 # epoch -> {rank: (op, root, payload)}
        self.results = {}
        self.mismatch = None
        self.mail = {}                  # (src, dst, tag) -> [payload]

    def collective(self, rank, op, root, obj):
        sim = self.sim
        sim.yield_point('%s:enter' % op)
        e = self.epoch[rank]
        self.epoch[rank] += 1
        slot = self.calls.setdefault(e, {})
        slot[rank] = (op, root, pickle.dumps(obj))
        sim.event('mpi', rank, op, e)
        sim.counters['collectives'] += 1
        kinds = {(o, r) for o, r, _ in slot.values()}
        if len(kinds) > 1 and self.mismatch is None:
            self.mismatch = 'collective #%d: %s' % (
                e, sorted((r, o) for r, (o, _, _) in slot.items()))
            sim.event('MISMATCH', self.mismatch)
        # a mismatched collective never completes (as in MPI: deadlock)
        sim.block_until(lambda: len(slot) == self.size and
                        len({(o, r) for o, r, _ in slot.values()}) == 1,
                        '%s#%d' % (op, e))
        return [pickle.loads(slot[r][2]) for r in range(self.size)]


class Comm(object):
    def __init__(self, world, rank):
        self._w, self._r = world, rank

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self._w.size

    rank = property(Get_rank)
    size = property(Get_size)

    def barrier(self):
        self._w.collective(self._r, 'barrier', None, None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        vals = self._w.collective(self._r, 'bcast', root,
                                  obj if self._r == root else None)
        return obj if self._r == root else vals[root]

    def gather(self, sendobj=None, root=0):
        vals = self._w.collective(self._r, 'gather', root, sendobj)
        return vals if self._r == root else None

    def allgather(self, sendobj=None):
        return self._w.collective(self._r, 'allgather', None, sendobj)

    def scatter(self, sendobj=None, root=0):
        vals = self._w.collective(self._r, 'scatter', root,
                                  sendobj if self._r == root else None)
        return vals[root][self._r]

    def reduce(self, sendobj, op='SUM', root=0):
        vals = self._w.collective(self._r, 'reduce', root, sendobj)
        return _reduce(_OPS[op], vals) if self._r == root else None

    def allreduce(self, sendobj, op='SUM'):
        return _reduce(_OPS[op], self._w.collective(self._r, 'allreduce', None, sendobj))

    def send(self, obj, dest, tag=0):
        self._w.sim.yield_point('send')
        self._w.mail.setdefault((self._r, dest, tag), []).append(pickle.dumps(obj))

    def recv(self, buf=None, source=0, tag=0, status=None):
        box = self._w.mail.setdefault((source, self._r, tag), [])
        self._w.sim.block_until(lambda: bool(box), 'recv')
        return pickle.loads(box.pop(0))

    def Abort(self, code=1):
        self._w.sim.kill()
        raise SystemExit(code)


def make_modules(world, rank):
    """The ``mpi4py`` package one rank sees."""
    comm = Comm(world, rank)
    MPI = types.ModuleType('mpi4py.MPI')
    MPI.COMM_WORLD = comm
    MPI.COMM_SELF = Comm(World(world.sim, 1), 0)
    MPI.Comm = Comm
    for k in _OPS:
        setattr(MPI, k, k)
    MPI.ANY_SOURCE = MPI.ANY_TAG = -1
    MPI.Wtime = lambda: world.sim.clock
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    pkg.MPI = MPI
    return {'mpi4py': pkg, 'mpi4py.MPI': MPI}
