#!/usr/bin/env python3
"""linecov.py [RUNS] [ID ...]: lines of scaks that no simulated run reaches.

Runs a share of each check in this process with line monitoring (Python 3.12) and prints,
per file, the executable lines that were never executed. A guide to what generators miss."""
import dis
import importlib
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def child(check, runs):
    sys.path.insert(0, HERE)
    from simkit import runner
    repo = os.environ.get('SIM_REPO', '/repo')
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(4, 'linecov')

    def line(code, no):
        if code.co_filename.startswith(repo) or '/scaks/' in code.co_filename:
            f = code.co_filename.split('/scaks/', 1)[-1]
            if (f, no) not in hit:
                hit.add((f, no))
        return mon.DISABLE
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
    mod = importlib.import_module('checks.' + check.lower())
    base = tempfile.mkdtemp()
    with runner.Quiet():
        for i in range(runs):
            runner.run_one(mod, runner.make_plan(mod, 1, i, 'quick'), base)
    mon.set_events(4, 0)
    with open(sys.argv[4], 'w') as f:
        for x in sorted(hit):
            f.write('%s:%d\n' % x)


def lines(path):
    code = compile(open(path).read(), path, 'exec')
    out, todo = set(), [code]
    while todo:
        c = todo.pop()
        out |= {no for _, _, no in c.co_lines() if no}
        todo += [k for k in c.co_consts if hasattr(k, 'co_code')]
    return out


def main():
    if sys.argv[1:2] == ['--child']:
        return child(sys.argv[2], int(sys.argv[3]))
    args = sys.argv[1:]
    runs = args.pop(0) if args and args[0].isdigit() else '60'
    ids = args or sorted(x[:-3].upper() for x in os.listdir(os.path.join(HERE, 'checks'))
                         if x[0] == 'c' and x[1:3].isdigit())
    hit = set()
    env = dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    procs = []
    for c in ids:
        out = tempfile.mktemp()
        procs.append((c, out, subprocess.Popen(
            [PY, '-W', 'ignore', os.path.abspath(__file__), '--child', c, runs, out], env=env,
            stdout=subprocess.DEVNULL)))
        if len(procs) % 6 == 0:
            procs[-1][2].wait()
    for c, out, p in procs:
        p.wait()
        if not os.path.exists(out):
            print(c, 'failed')
            continue
        for x in open(out):
            f, no = x.rsplit(':', 1)
            hit.add((f, int(no)))
        os.unlink(out)
    root = os.path.join(os.environ.get('SIM_REPO', '/repo'), 'scaks')
    for d, _, fs in sorted(os.walk(root)):
        if '/tests' in d:
            continue
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            want = lines(p)
            miss = sorted(n for n in want if (rel, n) not in hit)
            if miss:
                src = open(p).read().splitlines()
                print('%s: %d of %d lines not reached' % (rel, len(miss), len(want)))
                for n in miss[:0 if rel.endswith('images2gif.py') else None]:
                    print('  %4d %s' % (n, src[n - 1]))


if __name__ == '__main__':
    sys.exit(main())
