"""Float widening and narrowing."""
from irvc.frame import *
from irvc.fp import *
from props.fpnames import *


def goals(k):
    for i, (f, s) in enumerate(SUF):
        for g, t in SUF[i + 1:]:
            k.contract("cb", f"__extend{s}{t}2", [("x", f)],
                       lambda x, r, f=f, g=g: [("value preserved", feq_bits(g, r, convert(f, g, x)))],
                       lambda x, o, f=f, g=g: o is None or same(g, o[0], ref_conv(f, g, x)))
            k.contract("cb", f"__trunc{t}{s}2", [("x", g)],
                       lambda x, r, f=f, g=g: [("nearest, ties to even", feq_bits(f, r, convert(g, f, x)))],
                       lambda x, o, f=f, g=g: o is None or same(f, o[0], ref_conv(g, f, x)))
    k.contract("cb", "__gnu_h2f_ieee", [("x", F16)],
               lambda x, r: [("value preserved", feq_bits(F32, r, convert(F16, F32, x)))],
               lambda x, o: o is None or same(F32, o[0], ref_conv(F16, F32, x)))
    k.contract("cb", "__gnu_f2h_ieee", [("x", F32)],
               lambda x, r: [("nearest, ties to even", feq_bits(F16, r, convert(F32, F16, x)))],
               lambda x, o: o is None or same(F16, o[0], ref_conv(F32, F16, x)))
