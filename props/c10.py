"""Float comparison."""
from irvc.frame import *
from irvc.fp import *
from props.fpnames import SUF


def goals(k):
    for f, s in SUF:
        for op, un in (("le", 1), ("lt", 1), ("eq", 1), ("ne", 1), ("ge", -1), ("gt", -1)):
            def ens(a, b, r, f=f, un=un):
                z = const(0, r.w)
                return [("unordered value", implies(funo(f, a, b), eq(r, const(un, r.w)) if un < 0 else sgt(r, z))),
                        ("less", implies(flt(f, a, b), slt(r, z))),
                        ("equal", implies(feq(f, a, b), eq(r, z))),
                        ("greater", implies(flt(f, b, a), sgt(r, z)))]
            k.contract("cb", f"__{op}{s}2", [("a", f), ("b", f)], ens, lambda a, b, o, f=f, un=un: o is None or orc(f, a, b, o[0], un))
        k.contract("cb", f"__unord{s}2", [("a", f), ("b", f)],
                   lambda a, b, r, f=f: [("nonzero exactly for NaN", biff(ne(r, const(0, r.w)), funo(f, a, b)))],
                   lambda a, b, o, f=f: o is None or (o[0] != 0) == (isn(f, a) or isn(f, b)))


def isn(f, x):
    return x & ~f.signbit > f.inf


def key(f, x):
    m = x & ~f.signbit
    return -m if x & f.signbit else m


def orc(f, a, b, o, un):
    # results are 32- or 64-bit; judge the sign at either width
    o32 = sx(o, 64) if o >> 32 else sx(o, 32)
    if isn(f, a) or isn(f, b):
        return o32 > 0 if un > 0 else o32 < 0
    x, y = key(f, a), key(f, b)
    return (o32 > 0) == (x > y) and (o32 < 0) == (x < y)
