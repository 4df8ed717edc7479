"""C25: the helpers return for every admissible input.

The contracts of the other checks without their postconditions: what remains is every overflow,
shift, division, bounds and unreachable condition and every access to memory in the IR built with
overflow checks and debug assertions, and termination."""
import importlib
from irvc.frame import *
from .fpnames import *

PARTS = ["c01", "c02", "c05", "c06", "c07", "c08", "c10", "c11", "c12", "c13", "c24", "c03", "c04"]


def goals(C):
    C.safety_only = True
    for p in PARTS:
        t0 = time.time()
        importlib.import_module("props." + p).goals(C)
        if C.verbose:
            print(p, round(time.time() - t0, 1), flush=True)
    # quad division is left out: that its reciprocal estimate stays positive is an error analysis
    for f, s in SUF[1:3]:
        C.contract("cb", f"__div{s}3", [("a", f), ("b", f)], lambda a, b, r: TRUE, lambda a, b, o: True)
