"""Bit counting and byte swap."""
from irvc.frame import *


def goals(k):
    k.trust.append("count-leading/trailing-zeros specification: most significant / least significant set bit, proved through the characterisation below, not through an intrinsic")
    for w, s in ((32, "si"), (64, "di"), (128, "ti")):
        k.contract("cb", f"__clz{s}2", [("x", f"u{w}")], lambda x, r, w=w: clz_spec(x, r, w), lambda x, o, w=w: o is None or o == [w - x.bit_length()])
        k.contract("cb", f"__ctz{s}2", [("x", f"u{w}")], lambda x, r, w=w: ctz_spec(x, r, w), lambda x, o, w=w: o is None or o == [tz(x, w)])
        k.contract("cb", f"__bswap{s}2", [("x", f"u{w}")],
                   lambda x, r, w=w: [(f"byte {i}", eq(extract(8 * i + 7, 8 * i, r), extract(w - 8 * i - 1, w - 8 * i - 8, x))) for i in range(w // 8)],
                   lambda x, o, w=w: o is None or o == [int.from_bytes(x.to_bytes(w // 8, "little"), "big")])

    for w in (32, 64):
        for v in ("leading_zeros_default", "leading_zeros_condset"):
            k.contract("driver", f"{v}_u{w}", [("x", f"u{w}")], lambda x, r, w=w: clz_spec(x, r, w), lambda x, o, w=w: o is None or o == [w - x.bit_length()])
        k.contract("driver", f"trailing_zeros_u{w}", [("x", f"u{w}")], lambda x, r, w=w: ctz_spec(x, r, w), lambda x, o, w=w: o is None or o == [tz(x, w)])


def tz(x, w):
    return w if x == 0 else (x & -x).bit_length() - 1


def clz_spec(x, r, w):
    n = resize(r, w)
    return [("zero gives the width", implies(eq(x, const(0, w)), eq(r, const(w, r.w)))),
            ("bit below the count is set", implies(ne(x, const(0, w)), band(ult(r, const(w, r.w)), eq(lshr(x, sub(const(w - 1, w), n)), const(1, w)))))]


def ctz_spec(x, r, w):
    n = resize(r, w)
    return [("zero gives the width", implies(eq(x, const(0, w)), eq(r, const(w, r.w)))),
            ("bit at the count is the lowest set", implies(ne(x, const(0, w)), band(ult(r, const(w, r.w)), eq(and_(x, neg(x)), shl(const(1, w), n)))))]
