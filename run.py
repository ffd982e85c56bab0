#!/opt/venv/bin/python
"""run.py <property id>: run one check (VERIF_TIER, VERIF_SEED from the environment)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    importlib.import_module('checks.' + sys.argv[1].lower()).main()
