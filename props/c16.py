"""Rounding to integral values."""
from irvc.frame import *
from irvc.fp import *
from props.fpnames import *


def goals(k):
    k.trust.append("native float add/sub/mul and comparisons follow IEEE 754 (round to nearest even); NaN results have arbitrary payload and sign")
    for f, s in LS:
        for n, rm in (("ceil", RTP), ("floor", RTN), ("trunc", RTZ), ("round", RNA), ("roundeven", RNE), ("rint", RNE)):
            k.contract("libm", n + s, [("x", f)],
                       lambda x, r, f=f, rm=rm: [("integral value", feq_bits(f, r, round_int(f, x, rm)))],
                       lambda x, o, f=f, rm=rm: o is None or same(f, o[0], ref_round_int(f, x, rm)), pat=r"libm::math::\w+::" + n + s)
        for n, rm in (("ceil", RTP), ("floor", RTN), ("trunc", RTZ), ("rint", RNE)):
            def ens(x, r, fl, f=f, rm=rm):
                e = round_int(f, x, rm)
                return [("integral value", feq_bits(f, r, e)),
                        ("inexact flag", implies(bnot(isnan(f, x)), eq(fl, b2bv(ne(e, x), 8))))]

            def orc(x, o, f=f, rm=rm):
                e = ref_round_int(f, x, rm)
                return o is None or same(f, o[0], e) and (x & ~f.signbit > f.inf or o[1] == (e != x))
            k.contract("driver_libm", f"{n}_status_{f.name}", [("x", f), ("inexact", ("out", 1))], ens, orc, replay=f"{n}_status.{f.name}")
