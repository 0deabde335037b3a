"""nothing to build: check that the tools the checks need are there"""
import os
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import z3, numpy
from engine import terms, smt, values, symnp, symsp, loops, loader, prove, contract
os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy, scipy, autograd'])
print('ok: z3 %s' % z3.get_version_string())
