"""64- and 128-bit multiplication and its overflow-reporting variants."""
from irvc.frame import *


def smul(a, b):
    """magnitude (2w bits) and sign of the signed product"""
    w = a.w
    sa, sb = slt(a, const(0, w)), slt(b, const(0, w))
    A, B = ite(sa, neg(a), a), ite(sb, neg(b), b)
    return mul(zext(A, 2 * w), zext(B, 2 * w)), bxor(sa, sb)


def flag(c):
    return ite(c, const(1, 32), const(0, 32))


def goals(C):
    for name, t in (("__muldi3", "u64"), ("__multi3", "i128")):
        w = width(t)
        C.contract("cb", name, [("a", t), ("b", t)],
                   lambda a, b, r: [("product modulo 2^N", eq(r, mul(a, b)))],
                   lambda a, b, o, w=w: o is None or o == [a * b % (1 << w)], engine="int")
    for name, t in (("__mulosi4", "i32"), ("__mulodi4", "i64"), ("__muloti4", "i128"), ("__rust_i128_mulo", "i128")):
        w = width(t)

        def ens(a, b, r, o, w=w):
            P, n = smul(a, b)
            lim = ite(n, const(1 << (w - 1), 2 * w), const((1 << (w - 1)) - 1, 2 * w))
            lo = trunc(P, w)
            return [("product modulo 2^N", eq(r, ite(n, neg(lo), lo))), ("overflow flag", eq(o, flag(ult(lim, P))))]

        def orc(a, b, o, w=w):
            p = sx(a, w) * sx(b, w)
            return o is None or o == [p % (1 << w), int(not -(1 << (w - 1)) <= p < 1 << (w - 1))]

        def split(a, b, w=w):
            sa, sb = slt(a, const(0, w)), slt(b, const(0, w))
            return [("a>=0, b>=0", band(bnot(sa), bnot(sb))), ("a>=0, b<0", band(bnot(sa), sb)), ("a<0, b>=0", band(sa, bnot(sb))), ("a<0, b<0", band(sa, sb))]
        C.contract("cb", name, [("a", t), ("b", t), ("oflow", ("out", 4))], ens, orc, split=split, engine="int")

    def uens(a, b, r, o):
        P = mul(zext(a, 256), zext(b, 256))
        return [("product modulo 2^N", eq(r, trunc(P, 128))), ("overflow flag", eq(o, flag(ne(extract(255, 128, P), const(0, 128)))))]
    C.contract("cb", "__rust_u128_mulo", [("a", "u128"), ("b", "u128"), ("oflow", ("out", 4))], uens,
               lambda a, b, o: o is None or o == [a * b % (1 << 128), int(a * b >> 128 != 0)], engine="int")
