"""Soft-float multiplication."""
from irvc.frame import *
from .fpnames import *
from .fpcase import *
from irvc import callee
from .near import s_mul


def goals(C):
    for f, s in SUF:
        name = f"__mul{s}3"
        C.contract("cb", name, [("a", f), ("b", f)],
                   ensures=lambda a, b, r, f=f: fp.feq_bits(f, r, fp.fmul(f, a, b, norm=True)),
                   oracle=lambda a, b, o, f=f: True if o is None else same(f, o[0], fp.ref_mul(f, a, b)),
                   samples=s_mul(f), split=lambda a, b, f=f: classes2(f, a, b), sweep=gen2(f), mulabs=[(f.mb, f.mb)], contracts=callee.widen_mul(C))
