#!/opt/venv/bin/python
"""Check one property:  check.py C11 [--tier quick|thorough] [--seed N] [-v] [--only NAME]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('VF_CHILD') != '1':
    import shutil
    import subprocess
    import tempfile

    scratch = tempfile.mkdtemp(prefix='vf-')
    env = dict(os.environ)
    env.update(
        VF_CHILD='1', VF_SCRATCH=scratch, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
        PROJ_DATA='/opt/vp/proj-data', PROJ_NETWORK='OFF', PROJ_USER_WRITABLE_DIRECTORY=scratch, TMPDIR=scratch,
        HOME=scratch, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', GDAL_PAM_ENABLED='NO',
    )
    env.pop('PYTHONPATH', None)
    try:
        rc = subprocess.call(['/opt/venv/bin/python', '-B', os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)

import argparse
import importlib

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
ap.add_argument('--only')
ap.add_argument('--runtime', action='store_true', help='run-time checks only')
ap.add_argument('-v', action='store_true')
a = ap.parse_args()

from vf import runner

mod = importlib.import_module('vf.props.' + a.prop.lower())
if a.runtime:
    mod.prop.cases.clear()
rc = runner.run(mod.prop, tier=a.tier, seed=int(a.seed), verbose=a.v, only=a.only)
sys.stdout.flush()
os._exit(rc)
