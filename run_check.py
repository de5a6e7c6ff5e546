#!/opt/venv/bin/python
"""run_check.py ID [--tier quick|thorough] [--replay FILE] - see DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
want = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '',
        'PYTHONHASHSEED': os.environ.get('PYTHONHASHSEED', '0')}
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
if os.environ.get('SIM_REEXEC') != '1':
    env = dict(os.environ, SIM_REEXEC='1', **want)
    env.pop('PYTHONDONTWRITEBYTECODE')
    env.pop('PYTHONPATH', None)
    os.execve(PY, [PY, '-X', 'faulthandler', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = False
from simkit import runner   # noqa
sys.exit(runner.main())
