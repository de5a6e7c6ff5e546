"""C16 - see DESIGN.md."""
import random

from simkit import gen as G, kgen, mkm
from simkit.core import SimAbort, SimCrash
from simkit.mkm import val
from simkit.refmodel import Ref, close_list, num, reaction

ID = 'C16'
RUNS = {'quick': 1500, 'thorough': 30000}
REAL = ['scaks.parsers.*', 'scaks.correctors.thermodynamic_corrector', 'scaks.models.*',
        'scaks.solvers (rate constants, change rates, process table)']
STUBS = ['KMCLib (lattice, configuration and process objects only)', 'mpi4py', 'clock',
         'file operations (fault points over a real scratch directory)']
ASSUMPTIONS = ['A missing configuration or sites file means the default lattice; a process '
               'file is checked when it is loaded for its form, and for its content when the '
               'process table is made.']
PROBES = ['failed-before-first-load', 'failed-after-load', 'good-after-failure', 'truncated',
          'truncated-but-valid', 'two-failures-in-a-row', 'solved-in-between',
          'failed-correction', 'corrected', 'kind-relative', 'kind-absolute', 'kind-kmc',
          'process-table-refused', 'after-crash', 'loaded-dictionary', 'kmc-ran-in-between']
FAULTS = ['eio', 'eacces', 'emfile', 'enoent', 'eio_read', 'crash_before_op',
          'crash_before_read']
STATES = 'distinct (kind of parser, sequence of attempts and their outcomes) histories'
RULE = ('A sequence of load attempts, corrections and queries on one model; nontrivial if an '
        'attempt failed.')
SHRINK = ('ops',)

GOOD = ['plain', 'comment', 'computed', 'extra']
BAD_REL = ['missing', 'directory', 'empty', 'syntax', 'raises', 'exits', 'imports', 'interrupt',
           'no-Ga', 'no-dG', 'short-Ga', 'long-Ga', 'short-dG', 'text', 'none', 'scalar',
           'nested', 'binary', 'late-syntax']
BAD_ABS = ['missing', 'directory', 'empty', 'syntax', 'raises', 'exits', 'imports', 'interrupt',
           'no-species', 'text', 'none', 'scalar', 'no-dict', 'binary', 'late-syntax',
           'no-site']
BAD_PROC = ['missing', 'directory', 'empty', 'syntax', 'raises', 'interrupt', 'binary', 'none']
BAD_CONF = ['directory', 'syntax', 'raises', 'interrupt', 'short', 'unknown', 'binary', 'none']
BAD_SITE = ['directory', 'syntax', 'raises', 'interrupt', 'short', 'unknown', 'binary', 'none']
REFUSED = ['no-key', 'reaction', 'element', 'same-coordinates', 'lengths']


# -- plans ----------------------------------------------------------------------
def species(mech):
    """Everything with an energy of its own in a mechanism."""
    out = set()
    for r in G.MECHANISMS[mech]['rxns']:
        import re
        for side in re.split(r'\s*<->\s*|\s*->\s*', r):
            for t in side.split(' + '):
                out.add(re.match(r'^(\d*)(.+)$', t.strip()).group(2))
    return sorted(out)


def absolute(rng, mech):
    return {sp: 0.0 if sp.startswith('*') else round(rng.uniform(-0.4, 0.4), 3) +
            (0.7 if '-' in sp else 0.0) for sp in species(mech)}


def gen(rng, i, tier):
    kind = rng.choice(['relative', 'relative', 'absolute', 'kmc', 'kmc'])
    plan = {'kind': kind, 'ops': [], 'faults': [], 'phased': True, 'fs_groups': ['in/']}
    if kind == 'kmc':
        s, eng = kgen.system(rng, analysis=['FrequencyAnalysis'], max_steps=8)
        s['redistribute'], s['time_limit'], s['nstep'] = False, None, rng.randint(1, 8)
        plan['engine'] = eng
        nrxn = len(kgen.RXNS)
    else:
        s = G.mkm(rng, G.SMALL)
        nrxn = len(G.MECHANISMS[s['mech']]['rxns'])
        if kind == 'relative' and rng.random() < 0.25:
            g = rng.choice(sorted(s['pressure']))
            s['pressure'][g] = 0.0
    plan['s'] = s
    ops = plan['ops']
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if kind == 'relative' and r < 0.2:
            ops.append({'op': 'correct', 'method': rng.choice(['shomate', 'entropy', 'entropy',
                                                               'nonsense'])})
            continue
        if kind != 'kmc' and r < 0.28:
            ops.append({'op': 'solve', 'c': G.guess(rng, s)})
            continue
        if kind == 'kmc' and r < 0.12:
            ops.append({'op': 'run'})
            continue
        ops.append(attempt(rng, kind, s, nrxn))
    ops.append(attempt(rng, kind, s, nrxn, good=True))
    if rng.random() < 0.12:
        k = rng.randrange(len(ops))
        if ops[k]['op'] == 'load':
            ops[k]['fault'] = {'site': rng.choice(['fs~in/', 'read~in/']),
                               'at': rng.randint(0, 6), 'kind': 'crash_before'}
    return plan


def attempt(rng, kind, s, nrxn, good=False):
    op = {'op': 'load', 'e': G.energies(rng, nrxn), 'style': rng.choice(GOOD), 'bad': None}
    if kind == 'absolute':
        op['abs'] = absolute(rng, s['mech'])
    if kind == 'relative' and rng.random() < 0.3:
        op['dict'] = True
    if kind == 'kmc':
        t, _ = kgen.system(rng, analysis=['FrequencyAnalysis'], max_steps=5)
        n = kgen.nsites(s)
        used = [x for x in s['types']]
        op['procs'] = [{'reaction': rng.choice(kgen.RXNS),
                        'coordinates_group': [[[0.0, 0.0, 0.0]]],
                        'elements_before': [s['empty']],
                        'elements_after': [rng.choice([x for x in used if x != s['empty']])],
                        'basis_sites': [0]} for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.5:
            op['procs'] = s['procs']
        op['types'] = rng.choice([None, [rng.choice(used) for _ in range(n)]])
        op['files'] = rng.choice(['all', 'all', 'no-conf', 'no-sites'])
    if good:
        return op
    r = rng.random()
    if r < 0.55:
        target = {'relative': 'energy', 'absolute': 'abs'}.get(kind) or rng.choice(
            ['energy', 'procs', 'conf', 'sites', 'procs-content'])
        pool = {'energy': BAD_REL, 'abs': BAD_ABS, 'procs': BAD_PROC, 'conf': BAD_CONF,
                'sites': BAD_SITE, 'procs-content': REFUSED}[target]
        if op.get('dict'):
            pool = ['no-Ga', 'no-dG', 'short-Ga', 'long-Ga', 'short-dG', 'text', 'none',
                    'scalar', 'nested']
        op['bad'] = [target, rng.choice(pool), rng.randint(0, nrxn - 1)]
    elif r < 0.67 and not op.get('dict'):
        op['cut'] = [rng.choice(['energy', 'procs', 'conf', 'sites']) if kind == 'kmc'
                     else 'energy', round(rng.random(), 3)]
    elif r < 0.85:
        k = rng.choice(['eio', 'eacces', 'emfile', 'enoent', 'eio_read'])
        op['fault'] = {'site': 'read~in/' if k.endswith('_read') else 'open_r~in/',
                       'at': rng.randint(0, 3 if kind == 'kmc' else 0),
                       'kind': k.replace('_read', '')}
    return op


def nontrivial(res):
    return any(res['probes'].get(p) for p in ('failed-before-first-load', 'failed-after-load',
                                              'failed-correction', 'process-table-refused'))


def simpler(plan):
    for i, op in enumerate(plan['ops']):
        for k in ('fault', 'cut', 'dict'):
            if op.get(k):
                o = {a: b for a, b in op.items() if a != k}
                yield dict(plan, ops=plan['ops'][:i] + [o] + plan['ops'][i + 1:])
        if op.get('bad'):
            yield dict(plan, ops=plan['ops'][:i] + [dict(op, bad=None)] + plan['ops'][i + 1:])


# -- input files ------------------------------------------------------------------
def garble(how, names, body):
    """Text of an input file that must be refused."""
    if how == 'empty':
        return '# nothing here\n'
    if how == 'syntax':
        return body + 'dG = [1.0, 2.0\n'
    if how == 'late-syntax':
        return body + '\n)\n'
    if how == 'raises':
        return body + 'x = 1 / 0\n'
    if how == 'exits':
        return body + 'raise SystemExit("stop")\n'
    if how == 'interrupt':
        return body + 'raise KeyboardInterrupt()\n'
    if how == 'imports':
        return body + 'import no_such_module_anywhere\n'
    if how == 'binary':
        return b'\x00\xff\xfe' + body.encode()
    return None


def rel_data(op):
    """Energy data (a dictionary) of a load operation, after spoiling it."""
    d = {'Ga': list(op['e']['Ga']), 'dG': list(op['e']['dG'])}
    if not op.get('bad') or op['bad'][0] != 'energy':
        return d
    how, k = op['bad'][1], op['bad'][2]
    if how == 'no-Ga':
        del d['Ga']
    elif how == 'no-dG':
        del d['dG']
    elif how == 'short-Ga':
        d['Ga'].pop()
    elif how == 'long-Ga':
        d['Ga'].append(0.5)
    elif how == 'short-dG':
        d['dG'].pop()
    elif how == 'text':
        d['dG'][k] = '-0.5'
    elif how == 'none':
        d['Ga'][k] = None
    elif how == 'scalar':
        d['Ga'] = 0.5
    elif how == 'nested':
        d['dG'][k] = [0.5]
    return d


def lines(d, style):
    out = ''
    if style == 'comment':
        out += '# energies in eV\n'
    if style == 'extra':
        out += 'author = "somebody"\n'
    for k, v in d.items():
        if style == 'computed':
            out += 'def f():\n    return %r\n%s = f()\n' % (v, k)
        else:
            out += '%s = %r\n' % (k, v)
    return out


def texts(op, kind, s):
    """name -> text (None: no such file; 'DIR': a directory) of the input files."""
    bad = op['bad'][:2] if op.get('bad') else [None, None]
    out = {}
    if kind == 'absolute':
        d = dict(op['abs'])
        how, k = bad[1], op['bad'][2] if op.get('bad') else 0
        sp = sorted(x for x in d if not x.startswith('*'))
        if how == 'no-species':
            del d[sp[k % len(sp)]]
        elif how == 'no-site':
            for x in [x for x in d if x.startswith('*')]:
                del d[x]
        elif how == 'text':
            d[sp[k % len(sp)]] = 'low'
        elif how == 'none':
            d[sp[-1 - k % len(sp)]] = None
        elif how == 'scalar':
            d = 0.5
        elif how == 'no-dict':
            d = sorted(d)
        out['energy'] = lines({'absolute_energies': d}, op['style'])
    else:
        out['energy'] = lines(rel_data(op), op['style'])
    if kind == 'kmc':
        n = kgen.nsites(s)
        procs = [dict(p) for p in op['procs']]
        if bad[0] == 'procs-content':
            p = procs[-1]
            if bad[1] == 'no-key':
                del p['elements_after']
            elif bad[1] == 'reaction':
                p['reaction'] = 'CO_g + *_x -> CO_x'
            elif bad[1] == 'element':
                p['elements_after'] = ['Unobtainium'] * len(p['elements_before'])
            elif bad[1] == 'same-coordinates':
                p['coordinates_group'] = [[[0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]]
                p['elements_before'] = p['elements_after'] = [s['empty']] * 2
            elif bad[1] == 'lengths':
                p['elements_before'] = [s['empty']] * 3
        out['procs'] = 'processes = %r\n' % (procs,)
        out['conf'] = 'types = %r\n' % (op['types'],) if op['types'] else '# empty lattice\n'
        out['sites'] = 'site_types = %r\n' % (['P'] * n,)
        if op['files'] == 'no-conf' and bad[0] != 'conf':
            out['conf'] = None
        if op['files'] == 'no-sites' and bad[0] != 'sites':
            out['sites'] = None
        if bad[0] == 'conf':
            t = [s['empty']] * n
            if bad[1] == 'short':
                t = t + [s['empty']]
            elif bad[1] == 'unknown':
                t[-1] = 'Unobtainium'
            out['conf'] = 'types = %r\n' % (None if bad[1] == 'none' else t,)
        if bad[0] == 'sites':
            t = ['P'] * n
            if bad[1] == 'short':
                t = t[1:]
            elif bad[1] == 'unknown':
                t[-1] = 'Q'
            out['sites'] = 'site_types = %r\n' % (None if bad[1] == 'none' else t,)
        if bad[0] == 'procs' and bad[1] == 'none':
            out['procs'] = 'pass\n'
    name = {'abs': 'energy'}.get(bad[0], bad[0])
    if name in out:
        if bad[1] == 'missing':
            out[name] = None
        elif bad[1] == 'directory':
            out[name] = 'DIR'
        elif garble(bad[1], None, '') is not None:
            out[name] = garble(bad[1], None, out[name] or '')
    if op.get('cut'):
        t = out[op['cut'][0]]
        if t not in (None, 'DIR'):
            out[op['cut'][0]] = t[:int(len(t) * op['cut'][1])]
    return out


def lay(env, op, kind, s):
    env.rm('in')
    env.mkdir('in')
    for name, t in texts(op, kind, s).items():
        if t == 'DIR':
            env.mkdir('in/%s.py' % name)
        elif t is not None:
            env.put('in/%s.py' % name, t)


def snapshot(env):
    return {n: env.read(n) for n in env.ls() if n.startswith('in/') and not n.endswith('/')}


def no_more_guesses(model, n):
    raise LookupError('no more guesses')


# -- the model --------------------------------------------------------------------
class User(object):
    def __init__(self, node, kind, s, env):
        self.node, self.kind, self.s = node, kind, s
        if kind == 'kmc':
            M = node.mod('scaks.models.kmc_model').KMCModel
            self.m = G.construct(M, kgen.setup_dict(s), env, s, logger_level=40)
        else:
            M = node.mod('scaks.models.micro_kinetic_model').MicroKineticModel
            extra = {'parser': 'AbsoluteEnergyParser'} if kind == 'absolute' else {}
            self.m = G.construct(M, G.setup_dict(s, **extra), env, s, logger_level=40)
            self.m.solver.get_data()
            self.m.hybrid_method_register(no_more_guesses)

    def load(self, op):
        p = self.m.parser
        if self.kind == 'kmc':
            p.parse_data(energy_file='in/energy.py', processes_file='in/procs.py',
                         configuration_file='in/conf.py', sitesmap_file='in/sites.py')
        elif op.get('dict'):
            p.parse_data(energy_data=rel_data(op))
        else:
            p.parse_data(filename='in/energy.py')

    def picture(self, table=True):
        """Everything that loaded data can be seen in."""
        m = self.m
        out = {'flags': (m.has_relative_energy, m.has_absolute_energy),
               'relative': val(m.relative_energies)}
        if self.kind == 'kmc':
            for a in ('process_dicts', 'configuration', 'sitesmap'):
                try:
                    x = getattr(m, a)
                except AttributeError:
                    out[a] = 'none'
                    continue
                out[a] = repr(x) if a == 'process_dicts' else tuple(x.types())
            if table:
                try:
                    ps = m.solver.processes
                    out['table'] = tuple((repr(p._coordinates), tuple(p._elements_before),
                                          tuple(p._elements_after), tuple(p._basis_sites),
                                          val(p._rate_constant), p._fast, p._redist)
                                         for p in ps)
                    out['mapping'] = tuple(m.solver.process_mapping)
                except SimAbort:
                    raise
                except Exception as e:
                    out['table'] = 'refused: ' + type(e).__name__
        else:
            out['absolute'] = val(getattr(m, '_absolute_energies', {}))
            c = self.probe()
            for name, f in (('k', lambda: m.solver.get_rate_constants()),
                            ('rates', lambda: m.solver.get_rates(c)),
                            ('residual', lambda: m.solver.get_residual(c)),
                            ('tof', lambda: m.solver.get_tof(c)),
                            ('boltzmann', lambda: m.solver.boltzmann_coverages())):
                if name == 'boltzmann' and self.kind != 'absolute':
                    continue
                try:
                    out[name] = val(f())
                except SimAbort:
                    raise
                except Exception as e:
                    out[name] = 'raised ' + type(e).__name__
        return out

    def probe(self):
        r = random.Random(7)
        return tuple(round(r.uniform(0.05, 0.2), 3) for _ in self.m.adsorbate_names)


def differs(a, b):
    return ', '.join('%s: %s -> %s' % (k, str(a.get(k))[:160], str(b.get(k))[:160])
                     for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))


def truth(sim, u, op, what):
    """A successful load gave the model exactly these energies."""
    kind, s = u.kind, u.s
    if kind == 'absolute':
        rel = {'Gaf': [], 'Gar': [], 'dG': []}
        E = op['abs']
        for r in G.MECHANISMS[s['mech']]['rxns']:
            states = [sum(n * E[sp] for n, sp in reaction(x + ' -> ' + x)[0])
                      for x in __import__('re').split(r'\s*<->\s*|\s*->\s*', r)]
            ts = states[1] if len(states) == 3 else max(states[0], states[-1])
            rel['Gaf'].append(ts - states[0])
            rel['Gar'].append(ts - states[-1])
            rel['dG'].append(states[-1] - states[0])
    else:
        rel = Ref.relative(op['e'])
    got = u.m.relative_energies
    for k in ('Gaf', 'Gar', 'dG'):
        sim.check(close_list(got[k], rel[k], 1e-12, num(1e-13)), 'wrong-energies',
                  lambda: '%s: %s is %s, the data says %s' % (what, k, got[k], rel[k]))
    sim.check(u.m.has_relative_energy and u.m.has_absolute_energy == (kind == 'absolute'),
              'wrong-flags', what)
    if kind == 'kmc':
        want = op['types'] if op['types'] and op['files'] != 'no-conf' else \
            [s['empty']] * kgen.nsites(s)
        sim.check(list(u.m.configuration.types()) == list(want), 'wrong-configuration', what)
        sim.check(refused(op) or u.m.process_dicts == op['procs'], 'wrong-processes', what)
    else:
        kf, kr = u.m.solver.get_rate_constants()
        a, b = Ref(s).k(rel)
        sim.check(close_list(kf, a, 1e-9) and close_list(kr, b, 1e-9), 'wrong-rate-constants',
                  lambda: '%s: k are %s %s, expected %s %s' % (
                      what, [float(x) for x in kf], [float(x) for x in kr],
                      [float(x) for x in a], [float(x) for x in b]))


# -- a run ------------------------------------------------------------------------
def run(plan, sim, env):
    kind, s = plan['kind'], plan['s']
    sim.probes['kind-' + kind] += 1
    node = env.node()
    trail, done = [], []
    with node:
        u = User(node, kind, s, env)
    loaded, failures, moved = False, 0, False
    for i, op in enumerate(plan['ops']):
        what = 'operation %d (%s)' % (i, describe(op))
        if op['op'] == 'solve':
            with node:
                if loaded:
                    sim.probes['solved-in-between'] += 1
                    try:
                        u.m.solver.get_steady_state_cvgs(c0=tuple(op['c']), single_pt=True)
                    except SimAbort:
                        raise
                    except Exception as e:
                        sim.event('solve', type(e).__name__)
            continue
        if op['op'] == 'run':
            with node:
                if loaded and u.picture().get('mapping') and not refused(done[-1]):
                    sim.probes['kmc-ran-in-between'] += 1
                    u.m.run()
                    moved = True
            continue
        lay(env, op, kind, s) if op['op'] == 'load' else None
        files = snapshot(env)
        with node:
            with sim.oracle():
                before = u.picture()
            sim.event('op', i, op['op'])
            fired0 = sum(sim.fired.values())
            sim.arm([op['fault']] if op.get('fault') else [])
            err = None
            try:
                if op['op'] == 'load':
                    u.load(op)
                elif loaded or op['method'] == 'nonsense':
                    u.m.corrector.correct_relative_energies(u.m.relative_energies,
                                                            method=op['method'])
                else:
                    continue
            except SimCrash:
                err = 'crash'
            except SimAbort:
                raise
            except BaseException as e:
                err = e
                sim.event('failed', type(e).__name__)
            struck = [k for k in sim.fired if k != 'short_read'] and \
                sum(sim.fired.values()) > fired0 and (
                    op.get('fault', {}).get('kind') != 'short')
            sim.arm([])
        if err == 'crash':
            # a new process: nothing of the old one is left, the files are
            env.reboot()
            sim.probes['after-crash'] += 1
            sim.check(snapshot(env) == files, 'input-changed', what + ': the crash changed input')
            node = env.node()
            with node:
                u = User(node, kind, s, env)
            loaded, failures, done, moved = False, 0, [], False
            trail.append('crash')
            continue
        sim.check(snapshot(env) == files, 'input-changed', what + ': input files were changed')
        with node, sim.oracle():
            after = u.picture()
        must_fail = struck or (op.get('bad') and op['bad'][0] != 'procs-content')
        if op['op'] == 'correct':
            must_fail = op['method'] == 'nonsense' or None
        if op.get('cut'):
            must_fail = None
        if op['op'] == 'load' and must_fail is None or op['op'] == 'correct' and must_fail is None:
            # what a fresh process makes of the same input
            n2 = env.node()
            with n2:
                v = User(n2, kind, s, env)
                try:
                    if op['op'] == 'load':
                        v.load(op)
                    else:
                        for o in done:
                            lay(env, o, kind, s) if o['op'] == 'load' else None
                            apply(v, o)
                        apply(v, op)
                    expect = None
                except SimAbort:
                    raise
                except BaseException as e:
                    expect = e
            must_fail = expect is not None
            if op.get('cut'):
                sim.probes['truncated' if must_fail else 'truncated-but-valid'] += 1
        if err is None:
            if not sim.check(not must_fail, 'failure-not-reported',
                             lambda: '%s succeeded (faults struck: %s)' % (
                                 what, dict(sim.fired))):
                return
            loaded = True
            if op['op'] == 'load':
                done = [op]
                moved = False
                if op.get('dict'):
                    sim.probes['loaded-dictionary'] += 1
                if not op.get('cut'):
                    with node, sim.judging('picture'):
                        truth(sim, u, op, what)
            else:
                sim.probes['corrected'] += 1
                done.append(op)
            if failures:
                sim.probes['good-after-failure'] += 1
            failures = 0
            # the same as in a process that never saw the failed attempts
            n2 = env.node()
            with n2:
                v = User(n2, kind, s, env)
                for o in done:
                    lay(env, o, kind, s) if o['op'] == 'load' else None
                    apply(v, o)
                with sim.oracle():
                    want = v.picture()
            if not moved:
                sim.check(after == want, 'differs-from-fresh', lambda: '%s: the model differs '
                          'from one that only saw the successful operations: %s' % (
                              what, differs(want, after)))
            if op.get('bad') and op['bad'][0] == 'procs-content':
                sim.probes['process-table-refused'] += 1
                sim.check(str(after.get('table', '')).startswith('refused'),
                          'failure-not-reported', what + ': the process table was made')
        else:
            if must_fail is False and not isinstance(err, (OSError,)) and not op.get('fault'):
                sim.fail('good-data-refused', '%s: %s: %s' % (what, type(err).__name__, err))
                return
            if not must_fail and op.get('fault', {}).get('kind') in (None, 'short'):
                sim.fail('good-data-refused', '%s: %s: %s' % (what, type(err).__name__, err))
                return
            if struck:
                sim.check(isinstance(err, OSError), 'other-error', '%s: the disk error became '
                          '%s: %s' % (what, type(err).__name__, err))
            if op['op'] == 'correct':
                sim.probes['failed-correction'] += 1
            else:
                sim.probes['failed-after-load' if loaded else 'failed-before-first-load'] += 1
            failures += 1
            if failures == 2:
                sim.probes['two-failures-in-a-row'] += 1
            sim.check(after == before, 'changed-by-failure', lambda: '%s failed (%s: %s) but '
                      'changed the model: %s' % (what, type(err).__name__, err,
                                                 differs(before, after)))
        trail.append((describe(op), err is None))
        sim.state(kind, tuple(trail))
        if sim.violations:
            return


def refused(op):
    return bool(op.get('bad') and op['bad'][0] == 'procs-content')


def apply(u, op):
    if op['op'] == 'load':
        u.load(op)
    else:
        u.m.corrector.correct_relative_energies(u.m.relative_energies, method=op['method'])


def describe(op):
    if op['op'] == 'correct':
        return 'correct:' + op['method']
    if op['op'] != 'load':
        return op['op']
    return 'load:' + ':'.join(
        [str(x) for x in (op.get('bad') or [])[:2]] + (['cut-' + op['cut'][0]] if op.get('cut') else [])
        + ([op['fault']['kind'] + '-' + op['fault']['site']] if op.get('fault') else [])
        + (['dict'] if op.get('dict') else []))
