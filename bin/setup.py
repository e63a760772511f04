"""Nothing to build: the engine is pure Python. Confirms the tools it needs are present."""
import os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.makedirs(os.path.join(R, 'evidence'), exist_ok=True)
from symex import core, load      # noqa: imports z3
import shutil
for t in ('cvc5', 'clang'):
    print(t, shutil.which(t))
print('ok')
