"""Builds the native helper used by the checks."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from irvc import solve
solve.build_sweep()
print("ok")
