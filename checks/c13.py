"""C13 - see DESIGN.md."""
from checks import _newton as N
from simkit import gen as G, mkm
from simkit.refmodel import Ref, ctx, num

ID = 'C13'
RUNS = {'quick': 900, 'thorough': 16000}
STEP_LIMIT = 12000000
REAL, STUBS = N.REAL, N.STUBS
ASSUMPTIONS = ['Plugins are recorders, written as direct subclass, as derived class or with a '
               'mix-in.', 'One Newton iteration does one successful linear solve.']
PROBES = ['several-attempts', 'good-guess', 'limit', 'lu-failed', 'callback-error',
          'hybrid-error', 'solver-error', 'interval>1', 'several-plugins', 'no-hybrid', 'other-model',
          'step-direction-compared', 'mixin', 'derived', 'no-step-attempt', 'partial-plugin',
          'failed-setup', 'failed-finalization']
FAULTS = ['lu_singular', 'lu_raise', 'hybrid_raise', 'plugin_raise']
STATES = 'distinct (steps per attempt, how it ended, intervals)'
RULE = ('Random system, guesses and faults with 1-3 recording plugins; nontrivial if there was '
        'more than one attempt or an error.')
SHRINK = ('faults', 'ops')
simpler = N.simpler


def gen(rng, i, tier):
    plan = N.gen(rng, i, tier, plugins=True)
    if rng.random() < 0.35:
        plan['faults'].append({'site': 'step', 'at': rng.choice([0, 1, 2, 4, 8, 15]),
                               'kind': 'raise'})
    if rng.random() < 0.15:
        plan['faults'].append({'site': 'hybrid', 'at': rng.randint(0, 4), 'kind': 'raise'})
    if rng.random() < 0.1:
        plan['faults'].append({'site': 'lu', 'at': rng.randint(0, 12), 'kind': 'raise'})
    if rng.random() < 0.15:
        plan['faults'].append({'site': rng.choice(['setup', 'finalize']),
                               'at': rng.choice([0, 0, 1, 2, 5]), 'kind': 'raise'})
    for n, p in enumerate(plan['plugins']):
        if n and rng.random() < 0.4:
            p['hooks'] = rng.sample(N.HOOKS, rng.choice([0, 1, 1, 2, 2]))
        if p['how'] != 'class' and rng.random() < 0.5:
            p['own'] = rng.sample(N.HOOKS, rng.choice([1, 1, 2]))
    plan['other'] = rng.random() < 0.2
    if rng.random() < 0.1:
        plan['hybrid'] = 'none'
        for op in plan['ops']:
            if op['op'] == 'run' or op['c'] is None:
                op.update(op='solve', c=N.odd_guess(rng, plan['s'], plan['roots'][0]))
    return plan


def nontrivial(res):
    return any(res['probes'].get(p) for p in ('several-attempts', 'callback-error', 'solver-error'))


def run(plan, sim, env):
    s = plan['s']

    def after(o):
        if o.exc is not None and not (isinstance(o.exc, (ValueError, MemoryError)) and
                                      'injected' in str(o.exc)):
            if not N.undefined(sim, o):
                raise o.exc
            o.value = o.model.solver.coverages
        with sim.judging('plugin calls'):
            judge(plan, sim, o, s)
    for p in plan['plugins']:
        if p['how'] in ('mixin', 'derived'):
            sim.probes[p['how']] += 1
        if p['interval'] > 1:
            sim.probes['interval>1'] += 1
    if len(plan['plugins']) > 1:
        sim.probes['several-plugins'] += 1
    if plan['hybrid'] == 'none':
        sim.probes['no-hybrid'] += 1
    if plan['other']:
        sim.probes['other-model'] += 1
    N.drive(plan, sim, env, after)


def sessions(sim, o, tag):
    """Splits the calls of one plugin; None if they are not well-formed."""
    out, cur = [], None
    for e in o.events:
        if e[0] == 'lu':
            if cur is not None:
                cur['lu'].append(e)
        elif e[0] in ('setup', 'step', 'fin') and e[1] == tag:
            model = e[3] if e[0] in ('setup', 'fin') else e[4]
            n = e[3] if e[0] == 'step' else e[2]
            if not sim.check(model is o.model, 'wrong-model',
                             '%s: plugin %s was called with another model' % (o.what, tag)):
                return None
            if e[0] == 'setup':
                if not sim.check(cur is None, 'setup-twice', '%s: plugin %s is set up for attempt %s '
                                 'inside attempt %s' % (o.what, tag, n, cur and cur['n'])):
                    return None
                cur = {'n': n, 'steps': [], 'lu': []}
                continue
            if not sim.check(cur is not None, 'no-setup', '%s: plugin %s: %s of attempt %s without '
                             'set-up' % (o.what, tag, e[0], n)):
                return None
            if not sim.check(cur['n'] == n, 'attempt-number', '%s: plugin %s: %s says attempt %s, '
                             'set-up said %s' % (o.what, tag, e[0], n, cur['n'])):
                return None
            if e[0] == 'step':
                cur['steps'].append((e[2], e[5], e[6], len(cur['lu'])))
            else:
                out.append(cur)
                cur = None
    if not sim.check(cur is None, 'not-finalized', lambda: '%s: plugin %s was set up for attempt '
                     '%s, never finalized' % (o.what, tag, cur['n'])):
        return None
    return out


def partial(plan, sim, o, tag, hooks):
    """The same for a plugin with some of the methods, by the sessions of the first one."""
    sim.probes['partial-plugin'] += 1
    out, cur = [], None
    for e in o.events:
        if e[0] == 'lu':
            if cur is not None:
                cur['lu'].append(e)
        elif e[0] == 'setup' and e[1] == 0:
            cur = {'n': e[2], 'steps': [], 'lu': [], 'setup': 0, 'fin': 0}
            out.append(cur)
        elif e[0] in ('setup', 'step', 'fin') and e[1] == tag:
            model = e[3] if e[0] in ('setup', 'fin') else e[4]
            n = e[3] if e[0] == 'step' else e[2]
            if not (sim.check(model is o.model, 'wrong-model', '%s: plugin %s was called with '
                              'another model' % (o.what, tag)) and
                    sim.check(cur is not None and cur['n'] == n, 'attempt-number', '%s: plugin %s: '
                              '%s says attempt %s, plugin 0 is in %s' % (
                                  o.what, tag, e[0], n, cur and cur['n']))):
                return None
            if e[0] == 'step':
                cur['steps'].append((e[2], e[5], e[6], len(cur['lu'])))
            else:
                cur[e[0]] += 1
    broken = broken_setup(o)
    for k, a in enumerate(out):
        for name, hook in (('setup', 'setup'), ('fin', 'finalize')):
            want = int(hook in hooks and (broken is None or k < len(out) - 1 or tag <= broken))
            if not sim.check(a[name] == want, 'partial-plugin', '%s: attempt %s: plugin %s with '
                             'methods %s got %d times %s' % (o.what, a['n'], tag, hooks, a[name],
                                                            hook)):
                return None
    if broken is not None and tag > broken:
        del out[-1:]
    return out


def broken_setup(o):
    """The plugin whose set-up failed (which ends the attempt and the solution), if any."""
    for e in o.events:
        if e[0] == 'raise' and e[1] == 'setup':
            return e[2]


def judge(plan, sim, o, s):
    m = o.model
    injected = o.exc is not None and 'injected' in str(o.exc)
    if injected:
        sim.probes['solver-error' if isinstance(o.exc, MemoryError) else 'callback-error'] += 1
    for e in o.events:
        sim.check(not (e[0] in ('setup', 'step', 'fin') and e[1] == 'other'), 'foreign-plugin',
                  '%s: the plugin of another model was called' % o.what)
    per = []
    for tag, p in enumerate(plan['plugins']):
        if len(p.get('hooks', N.HOOKS)) == len(N.HOOKS):
            x = sessions(sim, o, tag)
        else:
            x = partial(plan, sim, o, tag, p['hooks'])
        if x is None:
            return
        per.append(x)
    broken = broken_setup(o)
    if broken is not None:
        sim.probes['failed-setup'] += 1
        for tag in range(broken + 1):      # plugins that were set up are finalized
            if not sim.check(per[tag] and not per[tag][-1]['steps'] and not per[tag][-1]['lu'] and
                             per[tag][-1]['n'] == per[0][-1]['n'], 'failed-setup', '%s: plugin %s '
                             'has no session although it was set up' % (o.what, tag)):
                return
        for tag in range(broken + 1):
            del per[tag][-1]
    if any(e[:2] == ('raise', 'finalize') for e in o.events):
        sim.probes['failed-finalization'] += 1
    nums = [[a['n'] for a in x] for x in per]
    if not sim.check(all(n == nums[0] for n in nums), 'sessions-differ',
                     '%s: attempts seen by the plugins: %s' % (o.what, nums)):
        return
    if not sim.check(all(a < b for a, b in zip(nums[0], nums[0][1:])), 'attempt-number',
                     '%s: attempt numbers %s' % (o.what, nums[0])):
        return
    # every Newton attempt is a session
    want = len([1 for e in groups(o.events)])
    if not sim.check(len(nums[0]) == want, 'attempts', '%s: %d attempts, plugins saw %d' % (
            o.what, want, len(nums[0]))):
        return
    if len(nums[0]) > 1:
        sim.probes['several-attempts'] += 1
    if not nums[0]:
        sim.probes['good-guess'] += 1
    step_error = any(e[:2] == ('raise', 'step') for e in o.events)
    ads = list(m.adsorbate_names)
    ref = Ref(s)
    ks = ref.k(o.rel)
    for i, n in enumerate(nums[0]):
        last = i == len(nums[0]) - 1
        lus = per[0][i]['lu']
        done = sum(1 for e in lus if e[1])
        failed = any(not e[1] for e in lus)
        if failed:
            sim.probes['lu-failed'] += 1
        cuts = {}
        for tag, p in enumerate(plan['plugins']):
            cuts[tag] = [c for c, _, _, _ in per[tag][i]['steps']]
        what = '%s, attempt %s' % (o.what, n)
        # number of continued iterations
        if failed:
            counts = [done]
        elif last and o.value is not None and not injected:
            counts = [done - 1]
        else:
            counts = [done - 1, done]
        sim.state(done, failed, last, tuple(p['interval'] for p in plan['plugins']), injected)
        if done > s['maxit']:
            sim.probes['limit'] += 1
            counts = [done - 1]
        if counts[-1] == 0:
            sim.probes['no-step-attempt'] += 1

        def fits(c):
            for tag, p in enumerate(plan['plugins']):
                if 'register_step' not in p.get('hooks', N.HOOKS):
                    continue
                full = list(range(p['interval'], c + 1, p['interval']))
                if cuts[tag] == full:
                    continue
                # the plugin before this one raised an error at the last step
                if step_error and last and c % p['interval'] == 0 and cuts[tag] == full[:-1] and any(
                        cuts[t] and cuts[t][-1] == c for t in range(tag)):
                    continue
                return False
            return True
        if not sim.check(any(fits(c) for c in counts), 'steps', lambda: '%s: steps %s were notified '
                         'after %d successful linear solves (intervals %s)' % (
                             what, cuts, done, [p['interval'] for p in plan['plugins']])):
            return
        seen(plan, sim, o, s, what, ref, ks, ads, [per[t][i]['steps'] for t in range(len(per))],
             [e[2] for e in lus if e[1]])


def groups(events):
    """Newton attempts, told apart by set-ups, failures and new guesses."""
    open_ = False
    for e in events:
        if e[0] == 'lu':
            if not open_:
                yield e
            open_ = e[1]
        elif e[0] == 'hybrid':
            open_ = False


def seen(plan, sim, o, s, what, ref, ks, ads, steps, sols):
    """Coverages and error at a step are those of that iteration."""
    at = {}
    for tag, lst in enumerate(steps):
        for c, cv, err, nlu in lst:
            sim.check(nlu == c, 'step-late', '%s: step %d was notified after %d iterations' % (
                what, c, nlu))
            if c in at:
                sim.check(mkm.val(cv) == mkm.val(at[c][0]) and mkm.val(err) == mkm.val(at[c][1]),
                          'plugins-differ', '%s: plugins see different states at step %d' % (what, c))
                continue
            at[c] = (cv, err)
            big, norm = N.norms(ref, cv, ks, ads)
            eps = mkm.grain(s, cv) * max(list(ks[0]) + list(ks[1])) * (
                1 + max(abs(num(x)) for x in cv)) ** 3 + num(1e-30)
            sim.check(big * num(1 - 1e-6) - eps <= num(err) <= norm * num(1 + 1e-6) + eps,
                      'wrong-error', lambda: '%s: error at step %d is %.6e, but the change rates '
                      'have maximum %.6e and norm %.6e' % (what, c, float(err), float(big),
                                                           float(norm)))
    # consecutive iterations differ by a fraction of the Newton step solved for in between
    dps = num(10) ** -(s['dps'] - 6)
    for c in sorted(at):
        if c - 1 not in at or (s['rootfinding'] == 'ConstrainedNewton' and c > 5):
            continue
        d = [num(a) - num(b) for a, b in zip(at[c][0], at[c - 1][0])]
        sol = [num(x) for x in sols[c - 1]]
        j = max(range(len(sol)), key=lambda k: abs(sol[k]))
        if abs(sol[j]) < num(1e-12) or abs(sol[j]) > 1e6:
            continue
        q = d[j] / sol[j]
        sim.probes['step-direction-compared'] += 1
        tol = num(1e-6) * abs(q) + dps * (1 + max(abs(num(x)) for x in at[c][0])) / abs(sol[j]) * 10
        ok = all(abs(a - q * b) <= (tol + dps) * abs(sol[j]) + dps for a, b in zip(d, sol))
        if s['rootfinding'] == 'MDNewton' and ok:
            p = ctx.log(abs(q), 2) if q else num(0.5)
            ok = q > 0 and abs(p - ctx.nint(p)) < 1e-4 + tol / abs(q)
        sim.check(ok, 'stale-state', lambda: '%s: coverages at step %d are not those of iteration '
                  '%d' % (what, c, c))
