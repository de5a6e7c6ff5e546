#!/usr/bin/env python3
"""determinism.py [RUNS] [ID ...]: is one seed one execution?

Runs each check twice, with another hash seed, another number of worker processes and
another start order, and compares the event-log digest of every run."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digests(check, runs, hashseed, jobs):
    env = dict(os.environ, PYTHONHASHSEED=hashseed, SIM_EVIDENCE=tempfile.gettempdir(),
               SIM_REPLAYS=tempfile.gettempdir())
    p = subprocess.run([os.path.join(HERE, 'run_check.py'), check, '--runs', runs, '--jobs', jobs,
                        '--digests', '--no-minimise'], capture_output=True, text=True, env=env)
    out = {}
    for line in p.stdout.splitlines():
        f = line.split()
        if len(f) == 3 and f[0].isdigit():
            out[f[0]] = f[1]
    return out


def main():
    args = sys.argv[1:]
    runs = args.pop(0) if args and args[0].isdigit() else '60'
    bad = 0
    for c in args or ['C%02d' % i for i in range(1, 30)]:
        if not os.path.exists(os.path.join(HERE, 'checks', c.lower() + '.py')):
            continue
        a, b = digests(c, runs, '0', '8'), digests(c, runs, '4242', '3')
        diff = [i for i in a if a[i] != b.get(i)]
        bad += len(diff) + (not a)
        print('%s: %d runs, %s' % (c, len(a), 'identical' if a and not diff else
                                   'DIFFERENT: %s' % diff[:10]), flush=True)
    return bad > 0


sys.exit(main())
