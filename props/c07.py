"""Soft-float addition and subtraction."""
from irvc.frame import *
from .fpnames import *
from .fpcase import *


def goals(C):
    for f, s in SUF:
        for op in ("add", "sub"):
            name = f"__{op}{s}3"
            spec = fp.fadd if op == "add" else fp.fsub
            ref = (lambda f, x, y: fp.ref_add(f, x, y)) if op == "add" else (lambda f, x, y: fp.ref_add(f, x, y ^ f.signbit if not fp.dec(f, y)[0] == "nan" else y))
            C.contract("cb", name, [("a", f), ("b", f)],
                       ensures=lambda a, b, r, f=f, spec=spec: fp.feq_bits(f, r, spec(f, a, b, norm=True)),
                       oracle=lambda a, b, o, f=f, ref=ref: True if o is None else same(f, o[0], ref(f, a, b)),
                       split=addsplit(f, op == "sub"), sweep=gen2(f))
