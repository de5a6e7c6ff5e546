"""C07 - see DESIGN.md."""
import copy

from checks import _kmc
from simkit import kgen
from simkit.core import SimCrash

ID = 'C07'
RUNS = {'quick': 900, 'thorough': 14000}
REAL, STUBS = _kmc.REAL, _kmc.STUBS
ASSUMPTIONS = _kmc.ASSUMPTIONS + [
    'A killed process loses what is in user-space buffers; what was handed to the '
    'operating system survives (process crash, not power loss).']
PROBES = ['crashed-before-first-flush', 'crashed-after-a-flush',
          'io-error', 'engine-abort', 'killed-between-steps', 'fault-never-reached',
          'rerun-in-same-process']
FAULTS = ['crash_before_write', 'crash_after_write', 'torn_write', 'crash_before_op',
          'crash_after_open', 'enospc', 'eio', 'edquot', 'eacces', 'emfile', 'short_write',
          'engine_abort', 'kill_between_steps']
STATES = 'distinct (file, bytes on disk at the disturbance) pairs'
RULE = ('Undisturbed rehearsal, then the same simulation disturbed at a random file '
        'operation or step, then a rerun; nontrivial if the disturbance struck.')
simpler = kgen.simpler


def gen(rng, i, tier):
    s, eng = kgen.system(rng, analysis=rng.sample(kgen.ALL, rng.randint(1, 4)), max_steps=60)
    s['time_limit'] = None
    eng.pop('fixed_dt', None)
    plan = {'s': s, 'engine': eng, 'direct': rng.random() < 0.8, 'ops': [],
            'buffer': rng.choice([1, 2, 3, 5, 10]), 'fs_groups': ['auto_'], 'phased': 1,
            'faults': [], 'same_process': rng.random() < 0.5}
    if not plan['direct'] and rng.random() < 0.3:
        s['nstep'] = rng.choice([60, 120, 505, 560])
        s['rep'], s['basis'] = [1, 1, 1], 1
        s['procs'] = [dict(p, basis_sites=[0]) for p in s['procs']
                      if len(p['elements_before']) == 1]
        s['ratios'], s['start'] = [1.0], None
    r = rng.random()
    if r < 0.1:
        plan['abort_after'] = rng.randint(1, max(1, s['nstep']))
    elif r < 0.2:
        plan['kill_after'] = rng.randint(1, max(1, s['nstep']))
    else:
        kind = rng.choice(['crash_before', 'crash_after', 'torn', 'torn', 'enospc', 'enospc',
                           'eio', 'edquot', 'eacces', 'emfile'])
        site = 'fs~auto_'
        if kind in ('torn', 'enospc', 'edquot', 'eio') and rng.random() < 0.7:
            site = 'write~auto_'
        if kind in ('eacces', 'emfile'):
            site = 'open_w~auto_'
        plan['faults'].append({'site': site, 'pos': round(rng.random(), 4), 'kind': kind,
                               'frac': rng.choice([0.0, 0.02, 0.3, 0.5, 0.9, 0.999])})
        if rng.random() < 0.2:
            plan['faults'].append({'site': 'write~auto_', 'pos': round(rng.random(), 4),
                                   'kind': 'short', 'frac': 0.4})
    return plan


def nontrivial(res):
    return bool(res['fired'])


def outputs(env, s):
    return {k: kgen.undate(env.read(kgen.FILES[k])) for k in s['analysis']}


def run(plan, sim, env):
    s = plan['s']
    buf = lambda k: (plan['buffer'] if plan['direct'] else kgen.BUFFER.get(k, 500))

    def simulate(node, s):
        model = kgen.build(node, s, env)
        if plan['direct']:
            _kmc.direct(model, node, s, plan['buffer'])
        else:
            model.run(scripting=True)

    def fresh(s):
        """What an undisturbed run leaves in an empty directory."""
        env.clear()
        kgen.files(s, env)
        node = env.node()
        with node:
            simulate(node, s)
        out = outputs(env, s)
        env.stop()
        return out

    engine0 = plan['engine']
    sim.arm([])
    ref = fresh(s)
    for k in s['analysis']:
        if not sim.check(ref[k] is not None, 'no-file', '%s was not written' % kgen.FILES[k]):
            return
    totals = dict(sim.op_index)
    env.clear()
    kgen.files(s, env)

    # -- the disturbed run ----------------------------------------------------
    sim.arm(plan['faults'], totals)
    for k in ('abort_after', 'kill_after'):
        if k in plan:
            sim.plan['engine'] = dict(engine0, **{k: plan[k]})
    nh = len(sim.kmc_histories)
    fired0 = sum(sim.fired.values()) - sim.fired['short_write']
    node = env.node()
    crashed, error = False, None
    try:
        with node:
            simulate(node, s)
    except SimCrash:
        crashed = True
        env.reboot()
    except Exception as e:
        error = e
        sim.event('error', type(e).__name__)
    sim.plan['engine'] = engine0
    struck = sum(sim.fired.values()) - sim.fired['short_write'] > fired0
    env.fs.full = 0
    hist = sim.kmc_histories[nh] if len(sim.kmc_histories) > nh else None
    kinds = set(sim.fired)
    if error is not None and not struck:
        raise error
    if struck and not crashed:
        if kinds & {'enospc', 'eio', 'edquot', 'eacces', 'emfile'}:
            sim.probes['io-error'] += 1
            x, ok = error, False
            while x is not None:
                ok = ok or isinstance(x, OSError)
                x = x.__cause__ or x.__context__
            sim.check(ok, 'error-swallowed', 'a disk error (%s) did not reach the caller: %r' % (
                sorted(kinds), error))
        elif 'engine_abort' in kinds:
            sim.probes['engine-abort'] += 1
            sim.check(error is not None, 'error-swallowed', 'the engine failed, run() did not')
    if not struck:
        sim.probes['fault-never-reached'] += 1
    if 'kill_between_steps' in kinds:
        sim.probes['killed-between-steps'] += 1

    # -- what is on disk? -----------------------------------------------------
    disk = outputs(env, s)
    done = len(hist['steps']) - 1 if hist else -1       # steps whose callbacks all returned
    if hist and (hist['finalized'] or 'kill_between_steps' in kinds or
                 'engine_abort' in kinds):
        done = len(hist['steps'])
    need = {}
    for k in s['analysis']:
        data = disk[k]
        sim.state(k, None if data is None else len(data))
        if hist is None:
            continue
        if hist['finalized']:
            sim.check(data == ref[k], 'finished-differs',
                      '%s of a run that finished differs from an undisturbed one' %
                      kgen.FILES[k])
            continue
        sim.check(ref[k].startswith(data or b''), 'not-a-prefix', lambda: '%s (%d bytes) is not '
                  'a beginning of the undisturbed file (%d bytes): %r' % (
                      kgen.FILES[k], len(data), len(ref[k]), tail(data, ref[k])))
        n = kgen.interval(s, k)
        part = dict(hist, steps=hist['steps'][:max(0, done)])
        recs = {'CoveragesAnalysis': len(kgen.analysed(part, n)) + 1,
                'EventAnalysis': max(0, len(kgen.analysed(part, n)) - 1),
                'TOFAnalysis': len(kgen.windows(s, part, n)),
                'FrequencyAnalysis': 0}[k]
        if k == 'CoveragesAnalysis' and recs == 1:
            recs = 0                 # set-up never flushes
        if done >= 0:
            need[k] = recs // buf(k) * buf(k)
    # -- the flushes that must be there: a run that stops right after them -------
    for k, m in need.items():
        sim.probes['crashed-after-a-flush' if m else 'crashed-before-first-flush'] += 1
        n = kgen.interval(s, k)
        cut = 0
        if m:
            for j in range(len(hist['steps']) + 1):
                part = dict(hist, steps=hist['steps'][:j])
                c = {'CoveragesAnalysis': len(kgen.analysed(part, n)) + 1,
                     'EventAnalysis': max(0, len(kgen.analysed(part, n)) - 1),
                     'TOFAnalysis': len(kgen.windows(s, part, n))}[k]
                if c >= m:
                    cut = j
                    break
        s2 = copy.deepcopy(s)
        s2['nstep'] = cut
        need[k] = (m, s2)
    lows = {}
    keep = disk
    saved = {f: env.read(f) for f in env.ls() if not f.endswith('/')}
    if any(m for m, _ in need.values()):
        for k, (m, s2) in need.items():
            if m:
                key = s2['nstep']
                if key not in lows:
                    env.stop()
                    lows[key] = fresh(s2)
                low = lows[key][k]
                sim.check(low is not None and keep[k] is not None and len(keep[k]) >= len(low),
                          'flushed-data-lost', lambda: '%s: %d records were due on disk (%d '
                          'bytes) when the run was disturbed, it has %d bytes' % (
                              kgen.FILES[k], m, len(low or b''), len(keep[k] or b'')))
    env.clear()
    for f, data in saved.items():
        env.put(f, data)
    # -- a later run in the same directory -----------------------------------------
    sim.arm([])
    if plan['same_process'] and not crashed and not lows:
        sim.probes['rerun-in-same-process'] += 1
    else:
        env.stop()
        node = env.node()
    with node:
        simulate(node, s)
    got = outputs(env, s)
    for k in s['analysis']:
        sim.check(got[k] == ref[k], 'rerun-differs', lambda: '%s after a rerun in the same '
                  'directory differs from a run in an empty one: %r' % (
                      kgen.FILES[k], tail(got[k], ref[k])))


def tail(data, ref):
    if data is None:
        return None
    for i, (a, b) in enumerate(zip(data, ref)):
        if a != b:
            return 'from byte %d: %r, expected %r' % (i, data[i:i + 80], ref[i:i + 80])
    return '%d bytes, expected %d' % (len(data), len(ref))
