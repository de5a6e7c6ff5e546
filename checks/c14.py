"""C14 - see DESIGN.md."""
import copy

from simkit import gen as G, kgen, mkm
from simkit.core import SimAbort, SimCrash

ID = 'C14'
RUNS = {'quick': 900, 'thorough': 14000}
STEP_LIMIT = 12000000
REAL = ['scaks.solvers.steady_state_solver', 'scaks.solvers.mean_field_solver',
        'scaks.models.micro_kinetic_model', 'scaks.utilities', 'scipy.integrate.ode']
STUBS = ['file operations (fault points over a real scratch directory)', 'clock',
         'failures of single integration steps and rate evaluations (injected)']
ASSUMPTIONS = ['The trajectory file is a Python file with the lists times and coverages.',
               'After a killed process the file is only required to be a beginning of the '
               'undisturbed one that still has what was there when the last step began.']
PROBES = ['interrupted', 'integrator-error', 'rate-error', 'write-error', 'killed', 'repeated',
          'without-output', 'no-points', 'many-points', 'boltzmann-start', 'old-file-there',
          'explicit-energies', 'shorter-than-before', 'later-process', 'ranks-2', 'ranks-3',
          'ranks-4', 'ranks-killed']
FAULTS = ['ode_odd', 'ode_interrupt', 'ode_error', 'ode_memory', 'rate_error', 'enospc', 'edquot', 'eio', 'eacces', 'emfile',
          'short_write', 'torn_write', 'crash_before_op', 'crash_before_write',
          'crash_after_write', 'crash_after_open']
STATES = 'distinct (algorithm, interval, points written, how it ended)'
RULE = ('One to three integrations in one directory, one of them disturbed at a random step or '
        'file operation; nontrivial if the file has a point or a disturbance struck.')
FILE = 'auto_ode_coverages.py'
SHRINK = ('faults', 'ops')


def gen(rng, i, tier):
    s = G.mkm(rng, G.SMALL if rng.random() < 0.8 else None)
    s['dps'] = rng.choice([30, 50, 100])
    n = len(G.MECHANISMS[s['mech']]['rxns'])
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        algo = rng.choice(['lsoda', 'lsoda', 'lsoda', 'vode', 'dopri5'])
        span = round(10.0 ** rng.uniform(-9, -1), 12)
        steps = rng.choice([1, 2, 5, 10, 25, 60] if rng.random() < 0.9 else [0, 150, 430])
        if algo != 'lsoda':          # hopeless on longer times
            span, steps = round(10.0 ** rng.uniform(-10, -8.7), 15), min(steps, 25)
        start = rng.choice([0.0, 0.0, 0.0, span * rng.randint(1, 9)])
        ops.append({'algo': algo, 'span': span,
                    'start': start, 'end': start + span * (steps - rng.choice([0.0, 0.5])),
                    'c': G.guess(rng, s) if rng.random() < 0.9 else None,
                    'e': G.energies(rng, n) if rng.random() < 0.25 else None,
                    'odd': {str(rng.randint(0, max(1, steps))): [rng.randint(0, 3), rng.choice(
                        [-1e-12, -1e-30, 0.0])] for _ in range(rng.randint(1, 3))}
                    if algo == 'lsoda' and rng.random() < 0.25 else {},
                    'out': rng.random() < 0.85, 'new': rng.random() < 0.3})
    faults = []
    if rng.random() < 0.75:
        kind = rng.choice(['interrupt', 'error', 'memory', 'rate', 'fs', 'fs', 'fs'])
        if kind == 'rate':
            faults.append({'site': 'rhs', 'pos': round(rng.random(), 4), 'kind': 'raise'})
        elif kind == 'fs':
            k = rng.choice(['torn', 'crash_before', 'crash_after', 'enospc', 'edquot', 'eio',
                            'eacces', 'emfile', 'short'])
            site = 'open_w~auto_' if k in ('eacces', 'emfile') else rng.choice(
                ['fs~auto_', 'write~auto_', 'write~auto_'])
            faults.append({'site': site, 'pos': round(rng.random(), 4), 'kind': k,
                           'frac': round(rng.random(), 3)})
        else:
            faults.append({'site': 'ode', 'pos': round(rng.random(), 4), 'kind': kind})
    if rng.random() < 0.2:
        return parallel_plan(rng, s, n)
    return {'s': s, 'ops': ops, 'faults': faults, 'fs_groups': ['auto_'], 'phased': True,
            'interval': rng.choice([1, 1, 2, 3, 7, 20, 200]),
            'buffer': rng.choice([None, None, 1, 2, 3, 5, 10, 40]),
            'old': rng.random() < 0.3}


def parallel_plan(rng, s, n):
    """Ranks of one job that integrate at the same time, each its own way."""
    ranks = rng.choice([2, 2, 3, 4])
    ops = []
    for _ in range(ranks):
        mine = []
        for _ in range(rng.choice([1, 1, 2])):
            # an integrator that several can use at once in one process
            span, steps = round(10.0 ** rng.uniform(-10, -8.7), 15), rng.choice([0, 1, 3, 8, 20])
            start = rng.choice([0.0, 0.0, span * rng.randint(1, 9)])
            mine.append({'algo': 'dopri5', 'span': span, 'start': start,
                         'end': start + span * (steps - rng.choice([0.0, 0.5])),
                         'c': G.guess(rng, s), 'e': G.energies(rng, n)
                         if rng.random() < 0.3 else None, 'out': rng.random() < 0.9})
        ops.append(mine)
    faults = []
    if rng.random() < 0.5:
        k = rng.choice(['interrupt', 'error', 'memory', 'torn', 'crash_before', 'crash_after',
                        'enospc', 'eio'])
        faults.append({'site': 'ode' if k in ('interrupt', 'error', 'memory') else
                       rng.choice(['fs~auto_', 'write~auto_']),
                       'pos': round(rng.random(), 4), 'kind': k, 'frac': round(rng.random(), 3)})
    return {'s': s, 'ranks': ranks, 'rank_ops': ops, 'ops': [], 'faults': faults,
            'fs_groups': ['auto_'], 'phased': True, 'interval': rng.choice([1, 1, 2, 3, 7]),
            'buffer': None, 'old': False, 'weights': [rng.choice([1, 1, 1, 4, 12])
                                                      for _ in range(ranks)]}


def simpler(plan):
    if plan.get('ranks', 1) > 1:
        for r, mine in enumerate(plan['rank_ops']):
            if len(mine) > 1:
                for j in range(len(mine)):
                    yield dict(plan, rank_ops=plan['rank_ops'][:r] + [mine[:j] + mine[j + 1:]] +
                               plan['rank_ops'][r + 1:])
        if plan['ranks'] > 2:
            for r in range(plan['ranks']):
                yield dict(plan, ranks=plan['ranks'] - 1, rank_ops=plan['rank_ops'][:r] +
                           plan['rank_ops'][r + 1:])
        return
    for i, op in enumerate(plan['ops']):
        if op.get('e'):
            ops = copy.deepcopy(plan['ops'])
            ops[i]['e'] = None
            yield dict(plan, ops=ops)
        if op.get('odd'):
            ops = copy.deepcopy(plan['ops'])
            ops[i]['odd'] = {}
            yield dict(plan, ops=ops)
    if plan.get('buffer'):
        yield dict(plan, buffer=None)


def nontrivial(res):
    return bool(res['fired'] or res['counters'].get('points'))


def contents(raw):
    d = {}
    exec(compile(raw, FILE, 'exec'), d)
    return list(d['times']), [list(c) for c in d['coverages']]


class Job(object):
    """The integrations of a plan, in one or more processes."""

    def __init__(self, plan, sim, env, ode):
        self.plan, self.sim, self.env, self.ode = plan, sim, env, ode
        self.sess = self.node = None

    def build(self):
        s = self.plan['s']
        self.node = self.env.node()
        with self.node:
            self.sess = mkm.Session(self.node, self.env, s,
                                    extra=dict({'ode_output_interval': self.plan['interval']},
                                               **({'ode_buffer_size': self.plan['buffer']}
                                                  if self.plan.get('buffer') else {})))
            self.sess.raw({'op': 'build', 'level': 20})
            self.sess.raw({'op': 'load', 'e': s['energies']})
            # the rates evaluated for the integrator may fail
            solver = self.sess.model.solver
            real = solver.steady_state_function
            sim = self.sim

            def rates(*a, **k):
                if not sim.in_oracle:
                    for f in sim.fault_for('rhs'):
                        sim.fire('rate_error')
                        raise FloatingPointError('injected')
                return real(*a, **k)
            solver.steady_state_function = rates

    def run(self, op):
        """(result or None, error)."""
        if self.sess is None:
            self.build()
        elif op['new']:
            self.env.stop()
            self.sim.probes['later-process'] += 1
            self.build()
        m = self.sess.model
        names = G.MECHANISMS[self.plan['s']['mech']]['ads']
        c = None
        if op['c'] is not None:
            d = dict(zip(names, op['c']))
            c = [d[a] for a in m.adsorbate_names]
        del self.ode['trace'][:]
        self.ode['odd'] = op.get('odd', {})
        with self.node:
            try:
                return m.solver.solve_ode(
                    algo=op['algo'], time_start=op['start'], time_end=op['end'],
                    time_span=op['span'], initial_cvgs=c, traj_output=op['out'],
                    relative_energies=G.explicit(op['e']) if op['e'] else None), None
            except SimAbort:
                raise
            except (Exception, KeyboardInterrupt) as e:
                return None, e


def run(plan, sim, env):
    with mkm.integrations(sim) as ode:
        if plan.get('ranks', 1) > 1:
            return in_parallel(plan, sim, env, ode)
        session(plan, sim, env, ode)


def rank_file(r):
    return 'data/auto_ode_coverages_%d.py' % r


def in_parallel(plan, sim, env, ode):
    """The ranks integrate at once, first undisturbed, then (perhaps) disturbed."""
    n = plan['ranks']
    sim.probes['ranks-%d' % n] += 1
    full = all_ranks(plan, sim, env, ode, [], {})
    if sim.violations or full is None or not plan['faults']:
        return
    totals = dict(sim.op_index)
    env.stop()
    env.clear()
    all_ranks(plan, sim, env, ode, plan['faults'], totals, full)


def all_ranks(plan, sim, env, ode, faults, totals, full=None):
    n, ops = plan['ranks'], plan['rank_ops']
    sim.arm(faults, totals)
    ode['ranks'] = traces = {}
    at = {r: -1 for r in range(n)}
    files = {r: [] for r in range(n)}        # after every operation
    names = G.MECHANISMS[plan['s']['mech']]['ads']

    def job(node):
        r = node.rank
        sess = mkm.Session(node, env, plan['s'], extra={'ode_output_interval': plan['interval']})
        sess.raw({'op': 'build', 'level': 20})
        sess.raw({'op': 'load', 'e': plan['s']['energies']})
        m = sess.model
        for i, op in enumerate(ops[r]):
            at[r] = i
            d = dict(zip(names, op['c']))
            traces[r] = []
            last = files[r][-1] if files[r] else None
            res = err = None
            try:
                res = m.solver.solve_ode(
                    algo=op['algo'], time_start=op['start'], time_end=op['end'],
                    time_span=op['span'], initial_cvgs=[d[a] for a in m.adsorbate_names],
                    traj_output=op['out'],
                    relative_energies=G.explicit(op['e']) if op['e'] else None)
            except SimAbort:
                raise
            except (Exception, KeyboardInterrupt) as e:
                if not struck_by(sim):
                    raise
                err = e
            what = 'rank %d, operation %d' % (r, i)
            with sim.judging('trajectory of a rank'):
                if err is not None:
                    if not disturbed(plan, sim, env, op, what, res, err, list(traces[r]), last,
                                     rank_file(r)):
                        return
                else:
                    judge(plan, sim, env, op, what, res, list(traces[r]), last, rank_file(r))
                files[r].append(env.read(rank_file(r)))
            if sim.violations:
                return
        sim.yield_point('end')

    world, nodes = env.world(n)
    try:
        tasks = env.parallel([(x, job) for x in nodes], 'integrations of %d ranks' % n)
    except SimCrash:
        env.reboot()
        sim.probes['ranks-killed'] += 1
        for r in range(n):
            now = kgen.undate(env.read(rank_file(r)) or b'')
            last = files[r][-1] if files[r] else None
            want = full[r][at[r]] if at[r] >= 0 else None
            sim.check(now == (kgen.undate(last) if last else b'') or
                      (want and kgen.undate(want).startswith(now)), 'not-a-prefix',
                      lambda: 'rank %d: %d bytes on disk are no beginning of the undisturbed '
                      'file' % (r, len(now)))
        return None
    if tasks is None or sim.violations:
        return None
    with sim.judging('files of the ranks'):
        sim.check(sum(sim.fired.values()) == 0 or not faults or any(
            len(files[r]) == len(ops[r]) for r in range(n)), 'no-end', 'no rank came to its end')
        stray = [f for f in env.ls() if 'auto_' in f and f not in [rank_file(r) for r in range(n)]]
        sim.check(not stray, 'stray-file', 'unexpected trajectory files %s' % stray)
    sim.state(n, tuple(sim.choices))
    return files


def session(plan, sim, env, ode):
    ops = plan['ops']
    old = b'times = [99.0]\ncoverages = [[9.0]]\n' * 400
    # -- without disturbances ------------------------------------------------------
    sim.arm([])
    job = Job(plan, sim, env, ode)
    if plan['old']:
        env.put(FILE, old)
        sim.probes['old-file-there'] += 1
    last = plan['old'] and old or None
    ends = []
    for i, op in enumerate(ops):
        res, err = job.run(op)
        if err is not None:
            raise err
        judge(plan, sim, env, op, i, res, list(ode['trace']), last)
        if sim.violations:
            return
        now = env.read(FILE)
        if op['out'] and last is not None and len(now) < len(last):
            sim.probes['shorter-than-before'] += 1
        ends.append((kgen.undate(now), list(ode['trace'])))
        last = now
        if i:
            sim.probes['repeated'] += 1
    totals = dict(sim.op_index)
    if not plan['faults']:
        return
    # -- the same, disturbed -----------------------------------------------------------
    env.stop()
    env.clear()
    if plan['old']:
        env.put(FILE, old)
    last = plan['old'] and old or None
    sim.arm(plan['faults'], totals)
    job = Job(plan, sim, env, ode)
    sizes = {'n': 0, 'data': b''}

    for i, op in enumerate(ops):
        fired = struck_by(sim)
        started = {'data': None}

        def look(kind, name):
            # contents after a completed operation on the file
            if kind == 'close' and name == FILE:
                started['data'] = env.read(FILE)
        env.fs.on_after = look
        try:
            res, err = job.run(op)
        except SimCrash:
            env.fs.on_after = None
            env.reboot()
            sim.probes['killed'] += 1
            now = kgen.undate(env.read(FILE)) or b''
            if op['out']:
                full = ends[i][0]
                sim.check(full.startswith(now) or now == (kgen.undate(last) or b''), 'not-a-prefix',
                          lambda: 'operation %d: %d bytes on disk are no beginning of the '
                          'undisturbed file' % (i, len(now)))
                if started['data'] is not None:
                    sim.check(now.startswith(kgen.undate(started['data'])), 'lost-points',
                              'operation %d: data written before is gone' % i)
                sim.state('killed', len(now) * 8 // (len(full) or 1))
            else:
                sim.check(now == (kgen.undate(last) or b''), 'touched', 'operation %d: the file '
                          'changed without being asked for' % i)
            if sim.violations:
                return
            # a later process integrates again
            sim.arm([])
            job = Job(plan, sim, env, ode)
            res, err = job.run(op)
            if err is not None:
                raise err
            judge(plan, sim, env, op, i, res, list(ode['trace']), last)
            return
        env.fs.on_after = None
        env.fs.full = 0
        struck = struck_by(sim) > fired
        if err is not None and not struck:
            raise err
        if struck and not disturbed(plan, sim, env, op, i, res, err, list(ode['trace']),
                                    last):
            return
        if not struck:
            judge(plan, sim, env, op, i, res, list(ode['trace']), last)
        if sim.violations:
            return
        last = env.read(FILE)


def struck_by(sim):
    return sum(sim.fired.values()) - sim.fired['short_write'] - sim.fired['ode_odd']


def points(plan, trace):
    k = plan['interval']
    return [x for n, x in enumerate(trace, 1) if n % k == 0]


def judge(plan, sim, env, op, i, res, trace, last, name=FILE):
    with sim.judging('trajectory'):
        what = i if isinstance(i, str) else 'operation %d' % i
        if op['c'] is None:
            sim.probes['boltzmann-start'] += 1
        if op['e']:
            sim.probes['explicit-energies'] += 1
        t, c = res
        if trace:
            sim.check(float(t) == trace[-1][0] and [float(x) for x in c] == trace[-1][1],
                      'wrong-result', lambda: '%s: returned %r, the integrator ended with %r' % (
                          what, (t, c), trace[-1]))
            sim.check(float(t) >= op['end'], 'too-short', '%s: ended at %r before %r' % (
                what, t, op['end']))
        raw = env.read(name)
        if not op['out']:
            sim.probes['without-output'] += 1
            sim.check(raw == last, 'touched', '%s: the trajectory file changed although no '
                      'output was requested' % what)
            return
        compare(plan, sim, what, raw, points(plan, trace))
        sim.state(op['algo'], plan['interval'], len(points(plan, trace)), 'finished')


def compare(plan, sim, what, raw, want):
    if not sim.check(raw is not None, 'no-file', '%s: no trajectory file' % what):
        return False
    try:
        ts, cs = contents(raw)
    except Exception as e:
        return sim.fail('invalid-file', '%s: the trajectory file cannot be used: %r' % (what, e))
    sim.counters['points'] += len(want)
    sim.probes['no-points' if not want else ('many-points' if len(want) > 20 else 'points')] += 1
    if not sim.check(len(ts) == len(want) and len(cs) == len(want), 'wrong-number', '%s: %d times '
                     'and %d coverages in the file, %d points expected' % (
                         what, len(ts), len(cs), len(want))):
        return False
    for n, (t, c, (wt, wc)) in enumerate(zip(ts, cs, want)):
        if not sim.check(t == wt and c == wc, 'wrong-point', lambda: '%s: point %d is %r, expected '
                         '%r' % (what, n, (t, c), (wt, wc))):
            return False
    return True


def disturbed(plan, sim, env, op, i, res, err, trace, last, name=FILE):
    """An injected error; False ends the run."""
    with sim.judging('disturbed trajectory'):
        what = i if isinstance(i, str) else 'operation %d' % i
        kinds = set(sim.fired) - {'short_write', 'ode_odd'}
        if not sim.check(err is not None, 'error-swallowed', '%s: %s did not reach the caller, '
                         'result %r' % (what, sorted(kinds), res)):
            return False
        disk = kinds & {'enospc', 'edquot', 'eio', 'eacces', 'emfile'}
        x, chain = err, []
        while x is not None:
            chain.append(x)
            x = x.__cause__ or x.__context__
        if disk:
            sim.probes['write-error'] += 1
            sim.check(any(isinstance(x, OSError) for x in chain), 'wrong-error',
                      '%s: the caller gets %r for %s' % (what, err, sorted(disk)))
            return True
        if 'rate_error' in kinds:
            # the integrator may pass the error of its callback on in its own way
            sim.probes['rate-error'] += 1
        else:
            kind = {'ode_interrupt': KeyboardInterrupt, 'ode_error': RuntimeError,
                    'ode_memory': MemoryError}[next(iter(kinds))]
            sim.probes['interrupted' if kind is KeyboardInterrupt else 'integrator-error'] += 1
            sim.check(any(isinstance(x, kind) and 'injected' in str(x) for x in chain),
                      'wrong-error', '%s: the caller gets %r instead of the injected error' % (
                          what, err))
        raw = env.read(name)
        if not op['out']:
            sim.check(raw == last, 'touched', '%s: the trajectory file changed although no '
                      'output was requested' % what)
            return True
        sim.state(op['algo'], plan['interval'], len(points(plan, trace)), sorted(kinds)[0])
        compare(plan, sim, what + ' (disturbed)', raw, points(plan, trace))
        return True
