"""Core of the simulator: one seed, one event log, one scheduler.

A *run* is described by a JSON-able ``plan``.  Everything that happens in the
run is a pure function of the plan and of the code under test:

* every schedule decision goes through :meth:`Sim.choose` - drawn from the
  plan's PRNG, or, on replay, taken from the recorded list ``plan['choices']``;
* every injected fault is an explicit entry of ``plan['faults']``;
* ranks are real threads that are parked and released one at a time, so the
  operating system never decides who runs.
"""
import contextlib
import hashlib
import random
import sys
import threading
from collections import Counter


class SimAbort(BaseException):
    """Base class of the exceptions with which the simulator stops a node."""


class SimCrash(SimAbort):
    """The simulated process was killed at this point."""


class StepLimit(SimAbort):
    """The deterministic step budget of the run is used up (no progress)."""


class GaveUp(SimAbort):
    """The simulated user has no further starting point to offer (a stop, not a violation)."""


class HarnessError(Exception):
    """The machinery itself is broken - never reported as a violation."""


class Task(object):
    """One rank: a parked thread with a baton."""

    def __init__(self, sim, node, fn, idx):
        self.sim, self.node, self.fn, self.idx = sim, node, fn, idx
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked_on = None      # callable -> True while blocked
        self.where = 'start'
        self.result = None
        self.exc = None
        self.thread = None

    def _main(self):
        self.sem.acquire()
        try:
            if not self.sim.dead:
                self.result = self.fn(self.node)
        except SimAbort as e:
            self.exc = e
        except BaseException as e:       # noqa - reported by the scheduler
            self.exc = e
        self.done = True
        self.sim._main_sem.release()


class Sim(object):
    def __init__(self, plan, step_limit=3000000):
        self.plan = plan
        self.seed = str(plan.get('seed', 0))
        self.rng = random.Random('sched:' + self.seed)
        self.choice_in = plan.get('choices')
        self.choices = []
        self._hash = hashlib.sha256()
        self.n_events = 0
        self.tail = []                   # last events, for reports
        self.keep_log = plan.get('_keep_log', False)
        self.full_log = []
        self.violations = []
        self.fired = Counter()           # fault kinds that actually fired
        self.probes = Counter()
        self.counters = Counter()        # free-form measured numbers
        self.states = set()
        self.clock = 1.0e9 + float(plan.get('clock0', 0))
        self.clock0 = self.clock
        self.sim_seconds = 0.0           # simulated physical time (kMC / ODE)
        self.dead = False
        self.tasks = []
        self.current = None              # current Task (parallel mode)
        self.node = None                 # current Node
        self._main_sem = threading.Semaphore(0)
        self.step_limit = step_limit
        self.steps = 0
        self.faults = {}
        self.op_index = Counter()
        if not plan.get('phased'):
            self.arm(plan.get('faults', []))
        self.in_oracle = 0
        self.deadlock = None
        self.event('seed', self.seed)

    # -- log ------------------------------------------------------------
    def event(self, *what):
        line = ' '.join(str(w) for w in what)
        self._hash.update(line.encode('utf8', 'replace') + b'\n')
        self.n_events += 1
        self.tail.append(line)
        if len(self.tail) > 60:
            del self.tail[0]
        if self.keep_log:
            self.full_log.append(line)

    @property
    def digest(self):
        return self._hash.hexdigest()

    def fail(self, cls, msg):
        """Record a violation (the run goes on; the first one is reported)."""
        self.event('VIOLATION', cls)
        self.violations.append((cls, msg))

    def check(self, cond, cls, msg):
        if not cond:
            self.fail(cls, msg() if callable(msg) else msg)
        return cond

    def state(self, *what):
        self.states.add(hashlib.md5(repr(what).encode()).hexdigest()[:12])

    # -- decisions ------------------------------------------------------
    def choose(self, n, weights=None):
        if n <= 1:
            return 0
        i = len(self.choices)
        if self.choice_in is not None:
            c = self.choice_in[i] if i < len(self.choice_in) else 0
            c = int(c) % n
        elif weights:
            x = self.rng.random() * sum(weights)
            c = 0
            for c, w in enumerate(weights):
                x -= w
                if x < 0:
                    break
        else:
            c = self.rng.randrange(n)
        self.choices.append(c)
        return c

    def arm(self, faults, totals=None):
        """From here on, these faults strike (occurrences are counted afresh).

        A fault says where it strikes by 'at' (occurrence number) or by 'pos',
        a fraction of the occurrences seen in a disturbance-free rehearsal.
        """
        self.op_index = Counter()
        self.faults = {}
        for f in faults:
            at = f.get('at')
            if at is None:
                at = int(f['pos'] * max(1, (totals or {}).get(f['site'], 1)))
            self.faults.setdefault((f['site'], int(at)), []).append(f)

    def fault_for(self, site):
        """The faults planned for this occurrence of *site* (consumed)."""
        k = self.op_index[site]
        self.op_index[site] += 1
        return self.faults.pop((site, k), [])

    def fire(self, kind):
        self.fired[kind] += 1
        self.event('FAULT', kind)

    # -- simulated clock --------------------------------------------------
    def tick(self, dt=0.001):
        self.clock += dt

    # -- scheduling ---------------------------------------------------------
    def yield_point(self, where):
        """Called by the seams in the thread of the running node."""
        t = self.current
        self.tick()
        if self.dead:
            raise SimCrash('job killed')
        if t is None or threading.current_thread() is not t.thread:
            return
        t.where = where
        self._main_sem.release()
        t.sem.acquire()
        if self.dead:
            raise SimCrash('job killed')

    def block_until(self, pred, where):
        """Park the current task until ``pred()`` holds."""
        t = self.current
        if t is None:
            if not pred():
                raise HarnessError('single task blocked forever at ' + where)
            return
        t.blocked_on = pred
        t.where = where
        self._main_sem.release()
        t.sem.acquire()
        t.blocked_on = None
        if self.dead:
            raise SimCrash('job killed')

    def run_parallel(self, jobs, max_switches=200000):
        """Run ``[(node, fn), ...]`` under the seeded scheduler.

        Returns the list of tasks.  ``sim.deadlock`` is set (a description) if
        every unfinished rank is blocked.
        """
        self.deadlock = None
        weights = self.plan.get('weights')
        tasks = [Task(self, node, fn, i) for i, (node, fn) in enumerate(jobs)]
        self.tasks = tasks
        for t in tasks:
            t.thread = threading.Thread(target=t._main, daemon=True)
            t.thread.start()
        last = None
        switches = 0
        while True:
            live = [t for t in tasks if not t.done]
            if not live:
                break
            if self.dead:
                # kill: let every parked thread unwind with SimCrash
                for t in live:
                    self._hand(t)
                continue
            runnable = [t for t in live if t.blocked_on is None or t.blocked_on()]
            if not runnable:
                self.deadlock = '; '.join('rank %d waits at %s' % (t.idx, t.where)
                                          for t in live)
                self.event('DEADLOCK', self.deadlock)
                self.dead = True
                continue
            if last in runnable:         # choice 0 == "keep going"
                order = [last] + [t for t in runnable if t is not last]
            else:
                order = runnable
            w = None
            if weights:
                w = [weights[t.idx % len(weights)] for t in order]
            t = order[self.choose(len(order), w)]
            if t is not last:
                switches += 1
                if switches > max_switches:
                    raise HarnessError('too many context switches')
            last = t
            self.event('run', t.idx, t.where)
            self._hand(t)
        self.counters['context_switches'] += switches
        for t in tasks:
            t.thread.join(10)
        self.current = None
        return tasks

    def _hand(self, t):
        self.current = t
        if t.node is not None:
            t.node.resume()
        t.sem.release()
        self._main_sem.acquire()
        if t.node is not None:
            t.node.suspend()
        self.current = None

    def kill(self):
        """The whole job dies now (called in the running node)."""
        self.dead = True

    def revive(self):
        """A new process may start (after a crash)."""
        self.dead = False
        self.deadlock = None

    # -- oracle sections ----------------------------------------------------
    @contextlib.contextmanager
    def oracle(self):
        """Inside, nothing is a simulation point and nothing is counted."""
        self.in_oracle += 1
        try:
            yield
        finally:
            self.in_oracle -= 1

    @contextlib.contextmanager
    def judging(self, what):
        """Examine something the code under test produced.

        If it has the wrong shape for the examination itself (a missing file,
        an unparsable text, None instead of a list), that is a violation.
        """
        self.in_oracle += 1
        try:
            yield
        except (SimAbort, HarnessError):
            raise
        except Exception as e:
            self.fail('malformed:' + what, '%s: %s: %s' % (what, type(e).__name__, e))
        finally:
            self.in_oracle -= 1


# --------------------------------------------------------------------------
# deterministic step budget, by sys.monitoring (Python >= 3.12)
# --------------------------------------------------------------------------
class StepBudget(object):
    TOOL = 3

    def __init__(self, sim, prefix):
        self.sim, self.prefix = sim, prefix

    def __enter__(self):
        mon = sys.monitoring
        ev = mon.events
        mon.use_tool_id(self.TOOL, 'simkit')
        sim, prefix = self.sim, self.prefix
        DISABLE = mon.DISABLE

        def on(code, *_):
            if not code.co_filename.startswith(prefix):
                return DISABLE
            if sim.in_oracle:
                return
            sim.steps += 1
            if sim.steps > sim.step_limit:
                raise StepLimit('no end after %d steps' % sim.step_limit)

        mon.register_callback(self.TOOL, ev.PY_START, on)
        mon.register_callback(self.TOOL, ev.JUMP, on)
        mon.set_events(self.TOOL, ev.PY_START | ev.JUMP)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.PY_START, None)
        mon.register_callback(self.TOOL, mon.events.JUMP, None)
        mon.free_tool_id(self.TOOL)
