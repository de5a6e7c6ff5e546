#!/usr/bin/env python3
"""catch.py [--all] [ID ...]: do the checks report the planted changes in seeded/?

Each change is applied to a scratch copy of /repo (never to /repo) and the check of its
property, or with --all every check, is run against that copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def run(check, repo, extra=()):
    env = dict(os.environ, SIM_REPO=repo, SIM_EVIDENCE=tempfile.gettempdir(),
               SIM_REPLAYS=tempfile.gettempdir())
    t = time.time()
    p = subprocess.run([os.path.join(HERE, 'run_check.py'), check, '--tier', 'quick'] + list(extra),
                       capture_output=True, text=True, env=env)
    line = [x for x in p.stdout.splitlines() if x.startswith('VIOLATION')]
    what = [x for x in p.stdout.splitlines() if x.strip()]
    return p.returncode, time.time() - t, line, what


def main():
    args = sys.argv[1:]
    every = '--all' in args
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(SEEDED))
    checks = ['C%02d' % i for i in range(1, 22)]
    for i in ids:
        meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
        base = tempfile.mkdtemp(prefix='catch')
        repo = os.path.join(base, 'repo')
        try:
            shutil.copytree('/repo', repo, symlinks=True)
            subprocess.run(['git', 'apply', os.path.join(SEEDED, i, 'patch.diff')], cwd=repo, check=True)
            res = []
            for c in (checks if every else [meta['property']]):
                rc, dt, line, what = run(c, repo)
                if rc == 1 and line:
                    res.append('%s (%.0f s)' % (c, dt))
                elif rc not in (0, 1):
                    res.append('%s: exit %d' % (c, rc))
                if rc and not every:
                    res.append('\n      ' + '\n      '.join(w[:200] for w in what[:6]))
            print('%-34s %s %s' % (i, meta['property'], ' '.join(res) or 'MISSED'), flush=True)
        finally:
            shutil.rmtree(base, ignore_errors=True)


main()
