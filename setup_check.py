"""Nothing to build: check that the interpreter, solvers and sources are there."""
import os
import shutil
import sys

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import cv2, numpy, rasterio, z3, sympy  # noqa

assert os.path.isdir('/repo/orthority')
print('ok: z3', z3.get_version_string(), 'cvc5', shutil.which('cvc5'))

import subprocess

# the verifier's array semantics against numpy
sys.exit(subprocess.call([sys.executable, '-B', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'selftest.py')]))
