#!/usr/bin/env python3
"""fill_design.py [CATCH_OUTPUT]: rewrites sections 5 and 6 of DESIGN.md.

Section 5 from known_findings.json, section 6 from seeded/*/meta.json and the output of
tools/catch.py (kept in tools/catch.txt)."""
import json
import os
import re
import shutil
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(HERE, 'DESIGN.md')
T = os.path.join(HERE, 'tools', 'catch.txt')
if sys.argv[1:]:
    old = {}
    for f in (T, sys.argv[1]):
        if os.path.exists(f):
            for x in open(f):
                m = re.match(r'^(c\d\d-\S+)\s+(C\d\d) (.*)$', x)
                if m:
                    old[m.group(1)] = x.rstrip()
    with open(T, 'w') as f:
        for k in sorted(old):
            if os.path.isdir(os.path.join(HERE, 'seeded', k)):
                f.write(old[k] + '\n')
text = open(P).read()
head = text[:text.index('## 5. ')]
out = ['## 5. Genuine defects found and repaired', '',
       'Each was shown by a check on the real code (replay file) and repaired in one `fix:` commit '
       'in /repo; `tools/sensitivity.py` undoes each alone and expects its check to alarm. One finding '
       'is left unrepaired (`findings` in known_findings.json): the symbolic change rates and their '
       'Jacobian (`get_elementary_dtheta_dt_sym`) ignore stoichiometry. With CO_g + *_s -> CO_s and '
       'O2_g + 2*_s -> 2O_s the symbolic change rate of O_s is half the numeric one; the patch would be small, but '
       '`test_steady_state_function_by_sym` and `test_analytical_jacobian_by_sym` assert the wrong '
       'numbers to the last digit, and the tests must pass unedited. C21 excuses exactly these values.', '',
       '| property | commit | what failed |', '|---|---|---|']
for line in sorted(json.load(open(os.path.join(HERE, 'known_findings.json')))['fixed']):
    f = line.split(' ', 3)
    out.append('| %s | `%s` | %s |' % (f[1].split('=')[1], f[2], f[3]))
out += ['', '## 6. Planted changes', '',
        'Each change compiles, passes the stable tests and has a demonstration; made by '
        '`tools/plant/` from the property text and the code. "Caught by" is what `tools/catch.py '
        '--all` or `tools/catch.py` saw at the quick tier, seed 1 (run time in parentheses).', '',
        '| change | needs | caught by |', '|---|---|---|']
got = {}
if os.path.exists(T):
    for x in open(T):
        m = re.match(r'^(c\d\d-\S+)\s+(C\d\d) (.*)$', x)
        got[m.group(1)] = m.group(3)
for k in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    meta = json.load(open(os.path.join(HERE, 'seeded', k, 'meta.json')))
    out.append('| %s | %s | %s |' % (k, meta['needs'], got.get(k, '?')))
open(P, 'w').write(head + '\n'.join(out) + '\n')
