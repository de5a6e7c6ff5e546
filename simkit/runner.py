"""Seeded search over plans, minimisation, replay files, evidence."""
import argparse
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('SIM_EVIDENCE') or os.path.join(HERE, 'evidence')
REPLAYS = os.environ.get('SIM_REPLAYS') or os.path.join(HERE, 'replays')
KNOWN = os.path.join(HERE, 'known_findings.json')
# No new run is started after this time, so that a check ends on a slow machine as well.
SEARCH_WALL = {'quick': 560.0, 'thorough': 720.0}
RUN_WALL = float(os.environ.get('SIM_RUN_WALL', '200'))   # watchdog, real seconds


def make_plan(check, seed, i, tier):
    s = '%s:%s:%d' % (seed, check.ID, i)
    rng = random.Random(s)
    plan = check.gen(rng, i, tier)
    plan['seed'] = s
    plan['check'] = check.ID
    return json.loads(json.dumps(plan))


class Quiet(object):
    """stdout of a worker goes nowhere (the code under test prints)."""

    def __enter__(self):
        self._o, self._e = sys.stdout, sys.stderr
        sys.stdout = open(os.devnull, 'w')
        return self

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout, sys.stderr = self._o, self._e


def run_one(check, plan, base, keep_log=False):
    from .env import execute
    with Quiet():
        return execute(check, plan, base, keep_log=keep_log)


def summarize(sim, plan):
    return {
        'digest': sim.digest, 'events': sim.n_events, 'steps': sim.steps,
        'violations': sim.violations[:5], 'fired': dict(sim.fired),
        'probes': dict(sim.probes), 'counters': dict(sim.counters),
        'states': sorted(sim.states), 'sim_seconds': sim.sim_seconds,
        'clock': sim.clock - sim.clock0,
        'choices': sim.choices if sim.violations else None,
        'nchoices': len(sim.choices),
        'schash': hashlib.md5(repr(sim.choices).encode()).hexdigest()[:12],
    }


# --------------------------------------------------------------------------
def _worker(check, seed, tier, n, nextidx, stop_at, current, started, slot, out, base):
    try:
        import faulthandler
        faulthandler.enable()
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        wbase = os.path.join(base, 'w%d_%d' % (slot, os.getpid()))
        os.makedirs(wbase)
        while True:
            with nextidx.get_lock():
                i = nextidx.value
                nextidx.value += 1
            if i >= n or i > stop_at.value:
                break
            started[slot] = time.monotonic()
            current[slot] = i
            plan = make_plan(check, seed, i, tier)
            try:
                sim = run_one(check, plan, wbase)
                res = summarize(sim, plan)
                if sim.violations and not all_known(check, sim.violations):
                    with stop_at.get_lock():
                        stop_at.value = min(stop_at.value, i)
            except BaseException as e:
                res = {'error': ''.join(traceback.format_exception(e))[-6000:]}
            out.put((i, res))
            current[slot] = -1
    except BaseException:
        out.put((-1, {'error': traceback.format_exc()}))
    out.put((None, slot))


def search(check, seed, tier, n, jobs, base):
    t_end = time.monotonic() + float(os.environ.get('SIM_SEARCH_WALL') or SEARCH_WALL[tier])
    """Runs plans 0..n-1; returns {index: summary}; hung indices separately."""
    ctx = mp.get_context('fork')
    nextidx, stop_at = ctx.Value('i', 0), ctx.Value('i', n)
    current, started = ctx.Array('i', [-1] * jobs), ctx.Array('d', [0.0] * jobs)
    out = ctx.Queue()
    procs = {}

    def spawn(slot):
        p = ctx.Process(target=_worker, args=(check, seed, tier, n, nextidx, stop_at,
                                              current, started, slot, out, base))
        p.daemon = True
        p.start()
        procs[slot] = p
    for s in range(jobs):
        spawn(s)
    results, hung, done = {}, [], set()
    import queue
    while len(done) < jobs:
        if time.monotonic() > t_end:
            with stop_at.get_lock():
                stop_at.value = -1
        try:
            i, res = out.get(timeout=0.5)
            if i is None:
                done.add(res)
            else:
                results[i] = res
            continue
        except queue.Empty:
            pass
        now = time.monotonic()
        for s, p in list(procs.items()):
            if s in done:
                continue
            i = current[s]
            if i >= 0 and now - started[s] > RUN_WALL:
                p.kill()
                p.join()
                hung.append(i)
                with stop_at.get_lock():
                    stop_at.value = min(stop_at.value, i)
                done.add(s)
            elif not p.is_alive():
                time.sleep(0.3)
                if out.empty() and s not in done:
                    if i >= 0 and i not in results:
                        results[i] = {'error': 'worker died (exit %s)' % p.exitcode}
                    done.add(s)
    for p in procs.values():
        p.join(5)
    return results, hung


# --------------------------------------------------------------------------
def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def known_match(check, v):
    for k in load_known().get('findings', []):
        if k['property'] == check.ID and k['class'] == v[0] and \
                all(s in v[1] for s in k.get('contains', [])):
            return k
    return None


def all_known(check, violations):
    return all(known_match(check, v) for v in violations)


def first_new(check, violations):
    for v in violations:
        if not known_match(check, v):
            return v
    return None


# --------------------------------------------------------------------------
def isolated(check, plan, base, wall):
    """Run a plan in a forked child; returns summary or None (hang/crash)."""
    ctx = mp.get_context('fork')
    r, w = ctx.Pipe(False)

    def body():
        try:
            d = tempfile.mkdtemp(dir=base)
            res = summarize(run_one(check, plan, d), plan)
            shutil.rmtree(d, ignore_errors=True)
        except BaseException as e:
            res = {'error': ''.join(traceback.format_exception(e))[-6000:]}
        w.send(res)
        w.close()
        os._exit(0)
    p = ctx.Process(target=body)
    p.start()
    res = None
    if r.poll(wall):
        try:
            res = r.recv()
        except EOFError:
            res = {'error': 'child died'}
    p.kill()
    p.join()
    return res


def minimise(check, plan, cls, base, deadline, log):
    """Greedy delta debugging over the plan, keeping the violation class."""
    from .env import execute

    def bad(p):
        if time.monotonic() > deadline:
            return None
        r = isolated(check, p, base, 30)
        if not r or 'error' in r:
            return None
        v = first_new(check, r['violations'])
        return r if v and v[0] == cls else None

    best = copy.deepcopy(plan)
    r = bad(best)
    if not r:
        return plan, None
    tries = 0
    if r['choices']:
        p = copy.deepcopy(best)
        p['choices'] = r['choices']
        q = bad(p)
        if q:
            best, r = p, q
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for key in getattr(check, 'SHRINK', ('faults', 'ops')):
            seq = best.get(key)
            if not isinstance(seq, list) or not seq:
                continue
            size = max(1, len(seq) // 2)
            while size >= 1:
                k = 0
                while k < len(best[key]):
                    p = copy.deepcopy(best)
                    del p[key][k:k + size]
                    tries += 1
                    q = bad(p)
                    if q:
                        best, r, changed = p, q, True
                    else:
                        k += size
                size //= 2
        for p in (check.simpler(copy.deepcopy(best)) if hasattr(check, 'simpler') else ()):
            tries += 1
            q = bad(p)
            if q:
                best, r, changed = p, q, True
                break
        ch = best.get('choices')
        if ch:
            for cut in (0, len(ch) // 4, len(ch) // 2, 3 * len(ch) // 4):
                p = copy.deepcopy(best)
                p['choices'] = ch[:cut]
                q = bad(p)
                if q:
                    best, r, changed = p, q, True
                    break
            ch = best['choices']
            nz = [i for i, c in enumerate(ch) if c]
            size = max(1, len(nz) // 2)
            while size >= 1 and nz and time.monotonic() < deadline:
                k = 0
                while k < len(nz):
                    p = copy.deepcopy(best)
                    for j in nz[k:k + size]:
                        p['choices'][j] = 0
                    q = bad(p)
                    if q:
                        best, r, changed = p, q, True
                    k += size
                nz = [i for i, c in enumerate(best['choices']) if c]
                size //= 2
                if size == 0:
                    break
            while best['choices'] and best['choices'][-1] == 0:
                best['choices'].pop()
            r2 = bad(best)
            if r2:
                r = r2
    log('minimised with %d trials' % tries)
    return best, r


def write_replay(check, plan, res, v, note=''):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (
        check.ID, hashlib.md5(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        json.dump({'property': check.ID, 'class': v[0], 'message': v[1], 'note': note,
                   'digest': res.get('digest') if res else None, 'plan': plan},
                  f, indent=1)
    return path


def replay(check, path, base, verbose=True):
    with open(path) as f:
        rep = json.load(f)
    from .env import execute
    res = isolated(check, rep['plan'], base, RUN_WALL * 1.25)
    if res is None:
        if rep['class'] == 'hang':
            print('REPLAY: hangs again')
            print('VIOLATION property=%s replay=%s' % (check.ID, path))
            return 1
        print('REPLAY: no result within the wall limit')
        return 2
    if 'error' in res:
        print(res['error'])
        return 2
    for c, m in res['violations']:
        print('  %s: %s' % (c, m))
    same = res['digest'] == rep['digest']
    print('REPLAY: event log digest %s (%s)' % (res['digest'],
          'identical' if same else 'DIFFERENT from the recorded one'))
    if res['violations']:
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    print('REPLAY: no violation')
    return 0


# --------------------------------------------------------------------------
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='execute one plan index and print its log')
    ap.add_argument('--digests', action='store_true', help='print a digest per run')
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at a violation')
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    sys.path.insert(0, HERE)
    from . import env as envmod
    sys.path.insert(0, envmod.REPO)
    import logging
    logging.raiseExceptions = True
    check = importlib.import_module('checks.' + a.id.lower())
    from .fs import scratch_base
    base = scratch_base()
    sys.pycache_prefix = os.path.join(base, 'pyc')
    try:
        prewarm(base)
        if a.replay:
            return replay(check, os.path.abspath(a.replay), base)
        if a.one is not None:
            plan = make_plan(check, a.seed, a.one, a.tier)
            print(json.dumps(plan, indent=1))
            sim = run_one(check, plan, base, keep_log=True)
            print('\n'.join(sim.full_log))
            for v in sim.violations:
                print('VIOLATED %s: %s' % tuple(v))
            print(dict(sim.fired), dict(sim.probes), dict(sim.counters), sim.steps)
            return 0
        return batch(check, a, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def prewarm(base):
    """Import everything once (and compile the code under test) before forking."""
    from .core import Sim
    from .node import Node
    with Quiet():
        try:
            Node(Sim({}))
        except Exception:
            pass          # every run will report it


def batch(check, a, base, t0):
    n = a.runs or check.RUNS[a.tier]
    global all_known
    if a.all:
        ak = all_known
        all_known = lambda c, v: True
    results, hung = search(check, a.seed, a.tier, n, min(a.jobs, n), base)
    if a.all:
        all_known = ak
    wall_search = time.monotonic() - t0
    errors = {i: r['error'] for i, r in results.items() if 'error' in r}
    for i in hung:
        r = isolated(check, make_plan(check, a.seed, i, a.tier), base, RUN_WALL * 1.25)
        if r is None:
            results[i] = {'hang': True, 'violations': [
                ('hang', 'run %d makes no progress (no end within %.0f s of real time, twice)'
                 % (i, RUN_WALL))]}
        elif 'error' in r:
            errors[i] = r['error']
        else:
            results[i] = r
    if a.digests:
        for i in sorted(results):
            print(i, results[i].get('digest'), results[i].get('events'))
    bad = {i: r for i, r in results.items()
           if r.get('violations') and first_new(check, r['violations'])}
    if a.all:
        seen = Counter(c for r in results.values() for c, _ in r.get('violations', []))
        for c, k in seen.most_common():
            ex = next((i, m) for i, r in sorted(results.items())
                      for cc, m in r.get('violations', []) if cc == c)
            print('ALL %5d x %s   e.g. run %d: %s' % (k, c, ex[0], ex[1][-1500:]))
    write_evidence(check, a, n, results, errors, bad, wall_search, t0)
    for k in load_known().get('findings', []):
        if k['property'] == check.ID:
            print('KNOWN-FINDING: property=%s %s' % (check.ID, k['what']))
    if bad:
        i = min(bad)
        v = first_new(check, bad[i]['violations'])
        plan = make_plan(check, a.seed, i, a.tier)
        print('run %d of seed %d: %s' % (i, a.seed, v[0]))
        print(v[1][:2500])
        res = bad[i]
        if not res.get('hang') and not a.no_minimise:
            budget = 60 if a.tier == 'quick' else 180
            p2, r2 = minimise(check, plan, v[0], base, time.monotonic() + budget, print)
            if r2:
                plan, res = p2, r2
                v = first_new(check, r2['violations'])
        path = write_replay(check, plan, res, v)
        if not res.get('hang'):
            import subprocess
            try:
                out = subprocess.run([sys.executable, os.path.join(HERE, 'run_check.py'),
                                      check.ID, '--replay', path],
                                     capture_output=True, text=True, timeout=300,
                                     env={k: v for k, v in os.environ.items()
                                          if k != 'SIM_REEXEC'}).stdout
            except subprocess.TimeoutExpired:
                out = ''
            print('minimised: %d ops, %d faults, %d scheduling choices; replay in a fresh '
                  'process: %s' % (len(plan.get('ops', [])), len(plan.get('faults', [])),
                                   len(plan.get('choices') or []),
                                   'identical' if 'identical' in out else 'NOT identical'))
            print(v[1][:2500])
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        return 1
    if errors:
        i = min(errors)
        print('HARNESS ERROR in run %d (of %d such):\n%s' % (i, len(errors), errors[i]))
        return 2
    todo = max(results) + 1 if results else n
    missing = [i for i in range(todo) if i not in results]
    if missing or not results:
        print('HARNESS ERROR: %d runs gave no result' % len(missing))
        return 2
    if todo < n:
        print('time is up: %d of %d runs' % (todo, n))
    print('%s %s: held on %d simulated runs (%d distinct), %.1f s' % (
        check.ID, a.tier, len(results),
        len({r['digest'] for r in results.values()}), time.monotonic() - t0))
    return 0


def write_evidence(check, a, n, results, errors, bad, wall_search, t0):
    ok = [r for r in results.values() if 'digest' in r]
    fired, probes, counters = Counter(), Counter(), Counter()
    states = set()
    for r in ok:
        fired.update(r['fired'])
        probes.update(r['probes'])
        counters.update(r['counters'])
        states.update(r['states'])
    nontrivial = {r['digest'] for r in ok if check.nontrivial(r)} \
        if hasattr(check, 'nontrivial') else {r['digest'] for r in ok if r['events'] > 5}
    wall = max(wall_search, 1e-6)
    idx = sorted(i for i in results if 'digest' in results[i])
    samples = []
    for i in idx[:: max(1, len(idx) // 3)][:3]:
        plan = make_plan(check, a.seed, i, a.tier)
        s = json.dumps(plan)
        samples.append({'run': i, 'digest': results[i]['digest'],
                        'plan': plan if len(s) < 4000 else s[:4000] + '...'})
    cov = {
        'evaluations': len(ok), 'distinct_nontrivial': len(nontrivial),
        'rule': getattr(check, 'RULE', '') +
        ' A run is distinct by the digest of its event log (schedule decisions, file and '
        'MPI operations, faults, observations).',
        'samples': samples,
        'runs_per_hour': round(len(ok) / wall * 3600),
        'seeds_per_hour': round(len(ok) / wall * 3600),
        'simulated_clock_seconds': round(sum(r['clock'] for r in ok), 3),
        'simulated_physical_seconds': round(sum(r['sim_seconds'] for r in ok), 6),
        'faults_fired': dict(sorted(fired.items())),
        'fault_kinds_configured': getattr(check, 'FAULTS', []),
        'rare_conditions_hit': dict(sorted(probes.items())),
        'probes_never_hit': sorted(set(getattr(check, 'PROBES', [])) - set(probes)),
        'counters': dict(sorted(counters.items())),
        'events': sum(r['events'] for r in ok),
        'library_steps': sum(r['steps'] for r in ok),
        'distinct_event_logs': len({r['digest'] for r in ok}),
        'distinct_schedules': len({r['schash'] for r in ok if r['nchoices']}),
        'distinct_states': len(states),
        'state_measure': getattr(check, 'STATES', 'none recorded'),
        'real_components': getattr(check, 'REAL', []),
        'stub_components': getattr(check, 'STUBS', []),
        'harness_errors': len(errors),
    }
    ev = {'property': check.ID, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': cov, 'assumptions': getattr(check, 'ASSUMPTIONS', []),
          'wall_s': round(time.monotonic() - t0, 2), 'violations': len(bad)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, check.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
