#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] [--jobs J] [--runs R] [--only PATH-PART]: which small changes of the code go unnoticed?

Makes random small changes (dropped statement, negated or shifted comparison, changed
constant, exchanged and/or, dropped call argument) in scratch copies of /repo, keeps those
that pass the stable tests, and runs a share of every check against each. Prints KILLED
(by which check) or SURVIVED with the change; survivors are read by hand: either they
break no listed property, or a check has to be strengthened."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ('tests', 'images2gif', 'elements_data', 'lattice_data', 'thermo_data',
        'coordinate_utilities', 'profiling', 'plotters', 'compatutil')
CHECKS = ['C%02d' % i for i in range(1, 22)]


def files(root):
    for d, _, fs in os.walk(os.path.join(root, 'scaks')):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), root)
            if f.endswith('.py') and not any(x in p for x in SKIP):
                yield p


class Sites(ast.NodeVisitor):
    """-> list of (line, description, function that edits the source text)."""

    def __init__(self, src):
        self.src, self.out, self.depth = src, [], 0
        self.lines = src.splitlines(keepends=True)

    def text(self, n):
        return ast.get_source_segment(self.src, n)

    def replace(self, n, new):
        if n.lineno != n.end_lineno:
            return None
        line = self.lines[n.lineno - 1]
        b = line.encode()
        new = (b[:n.col_offset] + new.encode() + b[n.end_col_offset:]).decode()
        return self.lines[:n.lineno - 1] + [new] + self.lines[n.lineno:]

    def add(self, n, what, new):
        t = self.text(n) or ''
        if any(x in t for x in ('logger', 'msg', 'warn(', '.info(', '.debug(')):
            return
        r = self.replace(n, new)
        if r is not None:
            self.out.append((n.lineno, '%s: %s -> %s' % (what, t[:70], new[:70]), ''.join(r)))

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                        continue
                    if isinstance(x, ast.AST):
                        self.visit(x)
            elif isinstance(v, ast.AST):
                self.visit(v)

    def visit_Compare(self, n):
        if self.depth and len(n.ops) == 1:
            swap = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
                    ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
                    ast.NotIn: 'in'}[type(n.ops[0])]
            self.add(n, 'compare', '%s %s %s' % (self.text(n.left), swap,
                                                 self.text(n.comparators[0])))
        self.generic_visit(n)

    def visit_Constant(self, n):
        if self.depth and type(n.value) is int and abs(n.value) < 1000:
            self.add(n, 'constant', str(n.value + 1))
        elif self.depth and type(n.value) is float:
            self.add(n, 'constant', repr(n.value * 1.5 if n.value else 1.0))
        elif self.depth and type(n.value) is bool:
            self.add(n, 'constant', str(not n.value))

    def visit_BoolOp(self, n):
        if self.depth and len(n.values) == 2:
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            self.add(n, 'bool', '%s %s %s' % (self.text(n.values[0]), op,
                                              self.text(n.values[1])))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        swap = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}.get(type(n.op))
        if self.depth and swap and not isinstance(n.left, (ast.Constant, ast.List)):
            self.add(n, 'arith', '%s %s %s' % (self.text(n.left), swap, self.text(n.right)))
        self.generic_visit(n)

    def stmt(self, n, what):
        if self.depth:
            self.add(n, what, 'pass')
        self.generic_visit(n)

    def visit_Expr(self, n):
        self.stmt(n, 'drop')

    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            self.stmt(n, 'drop')
        else:
            self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n, 'drop')

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Call(self, n):
        if self.depth and n.keywords and n.lineno == n.end_lineno:
            t = self.text(n)
            for k in n.keywords:
                if k.arg and not ('logger' in t or 'format' in t):
                    args = [self.text(a) for a in n.args] + [
                        '%s=%s' % (x.arg, self.text(x.value)) for x in n.keywords
                        if x is not k and x.arg]
                    self.add(n, 'argument', '%s(%s)' % (self.text(n.func), ', '.join(args)))
        for a in n.args:
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and \
                    a.func.id in ('list', 'tuple', 'dict', 'float') and len(a.args) == 1:
                self.add(a, 'copy', self.text(a.args[0]))
        if self.depth and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy'):
            if n.args:
                self.add(n, 'copy', self.text(n.args[0]))
            else:
                self.add(n, 'copy', self.text(n.func.value))
        self.generic_visit(n)


def good(base, wt):
    env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    j, o = wt + '/j.xml', wt + '/o.json'
    try:
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                        '--timeout=60', '--continue-on-collection-errors',
                        '--ignore=scaks/tests/test_all.py', 'scaks/tests', '-o',
                        'junit_family=xunit2', '--junitxml=' + j], cwd=wt, env=env,
                       capture_output=True, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', o, 'junit:' + j],
                   capture_output=True)
    if not os.path.exists(o):
        return False
    got = set(json.load(open(o))['passed'])
    for x in (j, o):
        os.unlink(x)
    return not base - got


def judge(a, base, m):
    path, (line, what, text) = m
    wt = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.rmtree(wt)
        shutil.copytree('/repo', wt, symlinks=True)
        with open(os.path.join(wt, path), 'w') as f:
            f.write(text)
        try:
            compile(text, path, 'exec')
        except SyntaxError:
            return None
        if not good(base, wt):
            return 'TESTS', path, line, what, ''
        env = dict(os.environ, SIM_REPO=wt, SIM_EVIDENCE=wt + '/ev', SIM_REPLAYS=wt + '/rp')
        os.makedirs(wt + '/ev')
        os.makedirs(wt + '/rp')
        first = [c for c in CHECKS if c not in ()]
        for c in first:
            try:
                p = subprocess.run([os.path.join(HERE, 'run_check.py'), c, '--runs', str(a.runs),
                                    '--jobs', '1', '--no-minimise'], capture_output=True,
                                   text=True, env=env, timeout=900)
            except subprocess.TimeoutExpired:
                return 'KILLED', path, line, what, c + ' (timeout)'
            if p.returncode:
                v = [x for x in p.stdout.splitlines() if x.startswith('run ')]
                return ('KILLED' if 'VIOLATION' in p.stdout else 'ERROR', path, line, what,
                        '%s %s' % (c, v[:1]))
        return 'SURVIVED', path, line, what, ''
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--n', type=int, default=200)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--runs', type=int, default=40)
    ap.add_argument('--only', default='')
    ap.add_argument('--skip', default='')
    a = ap.parse_args()
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    ms = []
    for p in files('/repo'):
        if a.only and not any(x in p for x in a.only.split(',')):
            continue
        src = open('/repo/' + p).read()
        v = Sites(src)
        v.visit(ast.parse(src))
        ms += [(p, x) for x in v.out]
    done = set()
    if a.skip and os.path.exists(a.skip):
        for x in open(a.skip):
            f = x.rstrip('\n').split(' | ')
            if len(f) > 2:
                done.add((f[1], f[2]))
    ms = [m for m in ms if ('%s:%d' % (m[0], m[1][0]), m[1][1]) not in done]
    random.Random(a.seed).shuffle(ms)
    print('%d possible changes' % len(ms), flush=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda m: judge(a, base, m), ms[:a.n]):
            if r:
                print('%s | %s:%d | %s | %s' % r, flush=True)


if __name__ == '__main__':
    sys.exit(main())
