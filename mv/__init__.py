"""Machinery that decides mapry's properties by generated-input search."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
os.environ.setdefault('PYTHONWARNINGS', 'ignore')

REPO = os.environ.get('MV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if REPO not in sys.path:
    sys.path.insert(0, REPO)

_TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _TOOLS not in sys.path:
    sys.path.append(_TOOLS)
