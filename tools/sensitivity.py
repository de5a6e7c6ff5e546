#!/usr/bin/env python3
"""sensitivity.py [COMMIT ...]: does the check named for a repair alarm when it is undone?

Every repair is reverted alone in a scratch copy of /repo (where the revert still applies) and
the quick check of its property is run against that copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['fixed']
    for line in known:
        f = line.split(' ', 3)
        prop, commit, what = f[1].split('=')[1], f[2], f[3]
        if sys.argv[1:] and commit not in sys.argv[1:]:
            continue
        base = tempfile.mkdtemp(prefix='sens')
        try:
            repo = os.path.join(base, 'repo')
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            p = subprocess.run('git diff %s %s~1 | git apply -3' % (commit, commit), shell=True,
                               cwd=repo, capture_output=True, text=True)
            if p.returncode or '<<<<<<<' in subprocess.run(['git', 'diff', 'HEAD'], cwd=repo,
                                                           capture_output=True, text=True).stdout:
                print('%s %s %-8s %s' % (prop, commit, 'overlaps', what), flush=True)
                continue
            env = dict(os.environ, SIM_REPO=repo, SIM_EVIDENCE=base, SIM_REPLAYS=base)
            p = subprocess.run([os.path.join(HERE, 'run_check.py'), prop, '--no-minimise'],
                               capture_output=True, text=True, env=env)
            got = 'alarm' if p.returncode == 1 else 'QUIET (exit %d)' % p.returncode
            print('%s %s %-8s %s' % (prop, commit, got, what), flush=True)
        finally:
            shutil.rmtree(base, ignore_errors=True)


main()
