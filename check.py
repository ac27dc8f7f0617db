#!/opt/venv/bin/python
"""check.py <property id>: decide one property on the current tree of /repo (see DESIGN.md)."""
import os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
from hv import run
sys.exit(run.main(sys.argv[1]))
