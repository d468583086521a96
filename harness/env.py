"""Process environment of every check: the code of /repo, Hypothesis from the
tooling venv, no byte code, no display, one thread per process."""
import os
import sys

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

# The code under test always comes from REPO's working tree.
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.append(VERIF)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)      # last: only for hypothesis, sortedcontainers
