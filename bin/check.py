#!/opt/venv/bin/python
"""check.py <property> [--tier=quick|thorough] [--only=harness,...]"""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = {'PYTHONPATH': '/opt/vp/compat', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'OPENBLAS_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore', 'MPLBACKEND': 'Agg'}
if any(os.environ.get(k) != v for k, v in want.items()):
    os.environ.update(want)
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from symex import runner
sys.exit(runner.main(sys.argv[1:]))
