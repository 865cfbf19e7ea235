"""python selftest.py [name]: cross-check the verifier's array semantics against numpy."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
from vf import selftest
sys.exit(1 if selftest.main(only=sys.argv[1] if len(sys.argv) > 1 else None) else 0)
