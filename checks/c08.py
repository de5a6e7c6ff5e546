"""C08 - see DESIGN.md."""
import errno
import pickle

from simkit import gen as G, mkm
from simkit.core import SimCrash
from simkit.refmodel import Ref

ID = 'C08'
RUNS = {'quick': 900, 'thorough': 18000}
STEP_LIMIT = 30000000
REAL = ['scaks.__init__ (archive)', 'scaks.models.micro_kinetic_model', 'scaks.solvers.*', 'pickle',
        'buffered file I/O of the Python runtime over a real scratch directory']
STUBS = ['the disk below the raw file interface (fault points)', 'clock',
         'hybrid method (deterministic guesses)', 'mpi4py']
ASSUMPTIONS = ['A crash kills the process; what the operating system has been given survives.']
KEYS = ['steady_state_coverages', 'steady_state_error', 'initial_guess', 'rates', 'net_rates',
        'reversibilities', 'tofs']
PROBES = ['archive-old', 'archive-new', 'archive-absent', 'error-passed-on', 'went-on-after-error',
          'restart-found-archive', 'restart-found-nothing', 'leftover-files', 'old-archive-there',
          'parallel-job', 'died-twice']
FAULTS = ['torn_write', 'crash_before_op', 'crash_before_write', 'crash_after_write',
          'crash_after_open', 'crash_after_replace', 'enospc', 'edquot', 'eio', 'eacces', 'emfile',
          'short_write']
STATES = 'distinct (file operation struck, kind, archive version found) triples'
RULE = ('A rehearsal records every content the archive takes; the same calls are repeated with a '
        'fault at a seeded file operation; nontrivial if the fault fired.')


def gen(rng, i, tier):
    s = G.mkm(rng, ['co_ads', 'co_ads', 'h2_diss', 'iso', 'two_site', 'co_ox'])
    s['hybrid'] = G.hybrid(rng, s)
    s['archived'] = [k for k in KEYS if rng.random() < 0.6]
    if rng.random() < 0.96 and 'steady_state_coverages' not in s['archived']:
        s['archived'].insert(0, 'steady_state_coverages')
    if rng.random() < 0.2 and s['mech'] != 'co_ox':
        s['dps'] = rng.choice([1500, 3000])    # archives larger than one buffer
        s['tol'] = 1e-12
    n = len(G.MECHANISMS[s['mech']]['rxns'])
    ops = []
    for _ in range(rng.randint(1, 3)):
        op = {'op': 'run', 'e': G.energies(rng, n), 'c': G.guess(rng, s), 'coarse': False}
        if rng.random() < 0.3:
            op.update(c=None, coarse=rng.random() < 0.3)     # starts from the archive, if any
        if s['dps'] > 1000:
            op['e'] = s['energies']
        if rng.random() < 0.12:
            op['fsolve'] = True
        if rng.random() < 0.1 and s['dps'] < 1000:
            op.update(XRC=True, product_name=rng.choice(sorted(s['pressure'])), epsilon=1e-2)
        ops.append(op)
    ranks = 2 if rng.random() < 0.15 else 1
    group = 'data.pkl' if ranks == 1 else 'data_0'
    site = 'fs' if rng.random() < 0.15 else rng.choice(['fs', 'fs', 'fs', 'write']) + '~' + group
    if site == 'fs':
        kind = rng.choice(['torn', 'crash_before', 'crash_after'])
    else:
        kind = rng.choice(['torn', 'torn', 'crash_before', 'crash_after', 'enospc', 'edquot',
                           'eio', 'eacces', 'emfile', 'short'])
    faults = [{'site': site, 'pos': round(rng.random(), 4), 'kind': kind,
               'frac': round(rng.random(), 3)}]
    if rng.random() < 0.25:
        faults.append(dict(faults[0], pos=round(rng.random(), 4),
                           kind=rng.choice(['short', 'eio', 'torn', 'enospc'] if site != 'fs' else
                                           ['torn', 'crash_before', 'crash_after'])))
    return {'s': s, 'ops': ops, 'faults': faults, 'fs_groups': [group], 'phased': True,
            'ranks': ranks,
            'first': rng.random() < 0.3,      # an earlier run left an archive
            'again': [{'site': 'fs~' + group, 'at': rng.randint(0, 12),
                       'kind': rng.choice(['torn', 'crash_before', 'crash_after']),
                       'frac': round(rng.random(), 2)}] if rng.random() < 0.2 else []}


def nontrivial(res):
    return bool(res['fired'])


class Watch(object):
    """Contents of the archive, with the number of the operation that made them."""

    def __init__(self, sim, env, name, base=None):
        self.sim, self.env, self.name = sim, env, name
        self.versions = []            # (operations seen, exact value)
        self.look()

    def look(self):
        v = load(self.env.read(self.name))
        if self.versions and self.versions[-1][1] is not None:
            self.sim.check(v is not None, 'lost', 'the archive is gone during a run')
        if v is not BAD and (not self.versions or v != self.versions[-1][1]):
            self.versions.append((ops(self.env, self.name), v))

    def __call__(self, op, name):
        self.look()


def ops(env, name):
    """Operations on the archive (or whatever replaces it) so far."""
    return sum(1 for _, x in env.fs.trace if x and name in x)


BAD = ('unreadable',)


def load(raw):
    """Exact picture of an archive; None if there is none, BAD if it is broken."""
    if raw is None:
        return None
    try:
        d = pickle.loads(raw)
        return mkm.val(d) if isinstance(d, dict) else BAD
    except Exception:
        return BAD


def process(plan, sim, env, node, s):
    """All runs of one process; returns (how many ended, error)."""
    with node:
        sess = mkm.Session(node, env, s)
        sess.raw({'op': 'build'})
        out = []
        for i, op in enumerate(plan['ops']):
            sim.event('run', i)
            try:
                out.append(('ok', mkm.val(sess.raw(op))))
            except OSError as e:
                out.append(('error', e.errno))
                sim.probes['error-passed-on'] += 1
                env.fs.full = 0       # somebody makes room; the program goes on
        return out


def run(plan, sim, env):
    s = plan['s']
    ranks = plan.get('ranks', 1)
    name = 'data.pkl' if ranks == 1 else 'data/data_0.pkl'
    if ranks > 1:
        sim.probes['parallel-job'] += 1
    if plan['first']:
        first(plan, sim, env, ranks)
    start = env.read(name)
    # -- rehearsal --------------------------------------------------------------
    at0 = ops(env, name)
    w = Watch(sim, env, name)
    env.fs.on_after = w
    sim.op_index.clear()
    good = job(env, ranks, lambda node: process(plan, sim, env, node, s))
    totals = dict(sim.op_index)
    w.look()
    env.fs.on_after = None
    env.stop()
    versions = [(n - at0, v) for n, v in w.versions]
    if any(x[0] != 'ok' for x in good):
        sim.fail('rehearsal', 'a run without faults ended with %s' % (good,))
        return
    if sim.violations:
        return
    # -- the same with faults -----------------------------------------------------
    env.clear()
    if start is not None:
        env.put(name, start)
        sim.probes['old-archive-there'] += 1
    sim.arm(plan['faults'], totals)
    at1 = ops(env, name)
    crashed = False
    got = None
    try:
        got = job(env, ranks, lambda node: process(plan, sim, env, node, s))
    except SimCrash:
        crashed = True
    n = ops(env, name) - at1
    if crashed:
        struck = env.fs.trace[-1]
        env.reboot()
    else:
        struck = None
        env.stop()
    env.fs.full = 0
    if sim.violations:
        return
    with sim.judging('archive'):
        judge(plan, sim, env, name, versions, n, struck, got)
    if sim.violations:
        return
    if set(env.ls()) - {'data.pkl', 'out.log', 'data/', 'data/data_0.pkl', 'log/', 'log/out_0.log',
                        'data/data_1.pkl', 'log/out_1.log'}:
        sim.probes['leftover-files'] += 1
    # -- the next process -----------------------------------------------------------
    for again in ([plan['again']] if plan['again'] else []) + [[]]:
        sim.arm(again)
        before = load(env.read(name))
        sim.probes['restart-found-archive' if before else 'restart-found-nothing'] += 1
        try:
            job(env, ranks, lambda node: following(sim, env, node, s, name))
            env.stop()
        except SimCrash:
            env.reboot()
            sim.probes['died-twice'] += 1
            v = load(env.read(name))
            sim.check(v is not BAD, 'torn', 'the archive is unreadable after a crash of the next run')
        if sim.violations:
            return


def following(sim, env, node, s, name):
    with node:
        sess = mkm.Session(node, env, s)
        sess.raw({'op': 'build'})
        sess.raw({'op': 'load', 'e': s['energies']})
        m = sess.model
        m.run()
        with sim.judging('result of the next run'):
            cv = m.steady_state_coverages
            mkm.converged(sim, s, list(m.adsorbate_names), cv, Ref.relative(s['energies']),
                          'next run')
            if 'steady_state_coverages' in s['archived']:
                d = pickle.loads(env.read(name))
                sim.check(mkm.val(d.get('steady_state_coverages')) == mkm.val(cv),
                          'next-archive', 'archive after the next run differs from its result')


def job(env, ranks, fn):
    """Runs *fn* on rank 0; the other ranks of the job only build their models."""
    if ranks == 1:
        return fn(env.node())
    s = env.sim.plan['s']

    def other(node):
        with node:
            mkm.Session(node, env, s).raw({'op': 'build'})
    w, nodes = env.world(ranks)
    tasks = env.parallel([(n, fn if n.rank == 0 else other) for n in nodes])
    return tasks[0].result if tasks else []


def first(plan, sim, env, ranks):
    s = dict(plan['s'])

    def fn(node):
        with node:
            sess = mkm.Session(node, env, s)
            sess.raw({'op': 'build'})
            sess.raw({'op': 'run', 'e': s['energies'], 'c': G.next_guess(s, s['hybrid'], 0),
                      'coarse': True})
    job(env, ranks, fn)
    env.stop()


def judge(plan, sim, env, name, versions, n, struck, got):
    v = load(env.read(name))
    if not sim.check(v is not BAD, 'torn', lambda: 'the archive is unreadable (%d bytes) after %s' % (
            len(env.read(name)), dict(sim.fired))):
        return
    # the last version that was complete before the operation that failed
    vals = [x for _, x in versions]
    errors = sum(sim.fired[k] for k in ('enospc', 'edquot', 'eio', 'eacces', 'emfile'))
    if struck and not errors:
        on_it = bool(struck[1]) and name in struck[1]
        n0 = n - sim.fired['short_write']      # the rest is written by one more operation
        low = max(i for i, (k, _) in enumerate(versions)
                  if k < n0 or (k == n0 and not on_it) or k == 0)
        high = max(i for i, (k, _) in enumerate(versions) if k <= n)
        ok = vals[low:high + 1]
        idx = [i for i in range(low, high + 1) if vals[i] == v]
        sim.check(bool(idx), 'not-a-version', lambda: 'after %s at operation %d (%s) the archive has '
                  'none of the contents %d..%d of %d that it can have: %s' % (
                      dict(sim.fired), n, struck, low, high,
                      len(vals), 'absent' if v is None else [k for k, _ in v]))
        if idx:
            sim.probes['archive-absent' if v is None else
                       ('archive-new' if idx[0] == high and high > low else 'archive-old')] += 1
            sim.state(struck, tuple(sim.fired), idx[0])
        return
    # an operation failed (or nothing happened) and the program went on
    if errors or any(x[0] == 'error' for x in got or []):
        sim.probes['went-on-after-error'] += 1
        sim.check(v is not None or versions[0][1] is None, 'lost', 'the archive is gone')
        if got and got[-1][0] == 'ok' and 'steady_state_coverages' in plan['s']['archived']:
            d = pickle.loads(env.read(name))
            sim.check(mkm.val(d.get('steady_state_coverages')) == got[-1][1][0], 'stale',
                      'the last run succeeded, but the archive has other coverages')
        elif v is not None and not any(op.get('c') is None for op in plan['ops']):
            known = {}             # (a run that starts from an older archive ends elsewhere)
            for x in vals:
                for k, y in (x or ()):
                    known.setdefault(k, []).append(y)
            for k, y in v:
                sim.check(y in known.get(k, ()), 'not-a-version',
                          '%s has a value that no run computed' % k)
    else:
        sim.check(v == vals[-1], 'lost-update',
                  'every run succeeded (%s), but the archive is not the last one' % dict(sim.fired))
        sim.state('no error', tuple(sim.fired), len(vals))
