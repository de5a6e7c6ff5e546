"""One simulated run: scratch directory, seams, processes, reboot."""
import contextlib
import gc
import os
import shutil
import traceback

from . import fs as fsmod
from .core import GaveUp, HarnessError, Sim, SimAbort, SimCrash, StepBudget, StepLimit
from .mpi import World
from .node import Node

REPO = os.environ.get('SIM_REPO', '/repo')
PKG = os.path.join(REPO, 'scaks')

_rmtree = shutil.rmtree


class Env(object):
    def __init__(self, sim, base, tag):
        self.sim = sim
        self.base = os.path.join(base, tag)
        os.makedirs(self.base)
        self.root = os.path.join(self.base, 'w')
        os.mkdir(self.root)
        self.fs = fsmod.FsSeam(sim, self.root)
        self.nodes = []
        sim.env = self

    # -- processes ----------------------------------------------------------
    def node(self, **kw):
        n = Node(self.sim, **kw)
        self.nodes.append(n)
        return n

    def world(self, size, rng_seed=0):
        """*size* ranks of one job; importing the library is part of start-up."""
        w = World(self.sim, size)
        return w, [self.node(rank=r, world=w, rng_seed=rng_seed) for r in range(size)]

    def close_nodes(self):
        for n in self.nodes:
            n.close()
        self.nodes = []

    def reboot(self):
        """After a crash: only what the disk had survives; a new boot begins."""
        sim = self.sim
        self.close_nodes()
        snap = self.fs.snapshot
        if snap is None:
            raise HarnessError('reboot without crash')
        with sim.oracle():
            for n in os.listdir(self.root):
                p = os.path.join(self.root, n)
                _rmtree(p) if os.path.isdir(p) else os.remove(p)
            for n in os.listdir(snap):
                src, dst = os.path.join(snap, n), os.path.join(self.root, n)
                if os.path.isdir(src):
                    shutil.copytree(src, dst)
                else:
                    shutil.copy2(src, dst)
            _rmtree(snap)
        self.fs.snapshot = None
        self.fs.dead = False
        self.fs.generation += 1
        sim.revive()
        sim.tick(30.0)
        sim.event('reboot')

    def stop(self):
        """The process ends normally; a later one finds its files."""
        self.close_nodes()
        self.fs.generation += 1
        self.sim.event('exit')

    def parallel(self, jobs, what='job'):
        """Run one function per rank to the end; judge how they ended."""
        sim = self.sim
        tasks = sim.run_parallel(jobs)
        if sim.deadlock:
            sim.fail('deadlock', '%s: %s' % (what, sim.deadlock))
            sim.revive()
            return None
        for t in tasks:
            if isinstance(t.exc, GaveUp):
                sim.revive()
                raise t.exc
        for t in tasks:
            if isinstance(t.exc, StepLimit):
                sim.fail('no-progress', '%s, rank %d: %s' % (what, t.idx, t.exc))
                return None
            if t.exc is not None:
                raise t.exc
        return tasks

    # -- the disk, seen by the oracle ------------------------------------------
    def read(self, name):
        with self.sim.oracle():
            try:
                with open(os.path.join(self.root, name), 'rb') as f:
                    return f.read()
            except (FileNotFoundError, NotADirectoryError):
                return None

    def put(self, name, text):
        with self.sim.oracle():
            p = os.path.join(self.root, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(text if isinstance(text, bytes) else text.encode())

    def rm(self, name):
        with self.sim.oracle():
            p = os.path.join(self.root, name)
            if os.path.isdir(p):
                _rmtree(p)
            elif os.path.lexists(p):
                os.remove(p)

    def clear(self):
        with self.sim.oracle():
            for n in os.listdir(self.root):
                p = os.path.join(self.root, n)
                _rmtree(p) if os.path.isdir(p) else os.remove(p)

    def mkdir(self, name):
        with self.sim.oracle():
            os.makedirs(os.path.join(self.root, name), exist_ok=True)

    def ls(self):
        """All paths below the working directory (directories end in '/')."""
        out = []
        with self.sim.oracle():
            for d, ds, fsn in os.walk(self.root):
                rel = os.path.relpath(d, self.root)
                rel = '' if rel == '.' else rel + '/'
                out += [rel + x + '/' for x in ds] + [rel + x for x in fsn]
        return sorted(out)


def from_repo(exc):
    """Does the traceback of *exc* pass through the code under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr, _ in traceback.walk_tb(exc.__traceback__):
            if fr.f_code.co_filename.startswith(PKG):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def where(exc):
    """Function names of the frames in the code under test (innermost last)."""
    names = [fr.f_code.co_name for fr, _ in traceback.walk_tb(exc.__traceback__)
             if fr.f_code.co_filename.startswith(PKG)]
    return names[-1] if names else '?'


def execute(check, plan, base, tag='run', keep_log=False, step_limit=None):
    """Execute one plan; returns the finished Sim."""
    plan = dict(plan)
    if keep_log:
        plan['_keep_log'] = True
    sim = Sim(plan, step_limit or getattr(check, 'STEP_LIMIT', 3000000))
    old = os.getcwd()
    env = Env(sim, base, tag)
    gc.collect()
    gc.disable()
    os.chdir(env.root)
    try:
        with env.fs:
            with StepBudget(sim, PKG + os.sep):
                try:
                    check.run(plan, sim, env)
                except GaveUp:
                    sim.counters['gave_up'] += 1
                except StepLimit as e:
                    sim.fail('no-progress', str(e))
                except HarnessError:
                    raise
                except SimAbort as e:
                    x = e             # the end of the user's patience, seen by a clean-up
                    while x is not None and not isinstance(x, GaveUp):
                        x = x.__context__
                    if x is not None:
                        sim.counters['gave_up'] += 1
                    else:
                        raise HarnessError('stray %s: %s' % (type(e).__name__, e))
                except Exception as e:
                    if not from_repo(e):
                        raise
                    sim.fail('exception:%s' % type(e).__name__,
                             '%s\n%s' % (e, ''.join(traceback.format_exception(e))[-3000:]))
            with sim.oracle():
                env.close_nodes()
    finally:
        os.chdir(old)
        gc.enable()
        shutil.rmtree(env.base, ignore_errors=True)
    return sim
