"""C24: integer powers are the product chain of the binary expansion of the exponent.

Multiplication and division of the format are opaque here: the contract says which products are
formed.  They are commutative, one is neutral, and NaNs are not told apart."""
from irvc.frame import *
from .fpnames import *


def mulop(c, f, a, b):
    one = const(f.one, f.w)
    lt = ult(a, b)
    r = uf("fmul." + f.name, f.w, ite(lt, a, b), ite(lt, b, a))
    return ite(eq(a, one), b, ite(eq(b, one), a, r))


def divop(c, f, a, b):
    return uf("fdiv." + f.name, f.w, a, b)


def chain(f, a, n, mul, div, one, sel):
    """sel(bit, x, y), over all 32 bits of |n|"""
    neg, bits = n
    m, sq = one, a
    for i, b in enumerate(bits):
        if i:
            sq = mul(sq, sq)
        m = sel(b, mul(m, sq), m)
    return sel(neg, div(one, m), m)


def spec(f, a, b):
    ng = eq(extract(31, 31, b), const(1, 1))
    mag = ite(ng, neg(b), b)
    bits = [eq(extract(i, i, mag), const(1, 1)) for i in range(32)]
    return chain(f, a, (ng, bits), lambda x, y: mulop(None, f, x, y), lambda x, y: divop(None, f, x, y), const(f.one, f.w), ite)


def oracle(f):
    def run(a, b, out):
        if out is None:
            return True
        n = b - (1 << 32) if b >> 31 else b
        m = abs(n)
        r, sq = f.one, a
        while m:
            if m & 1:
                r = fp.ref_mul(f, r, sq)
            m >>= 1
            if m:
                sq = fp.ref_mul(f, sq, sq)
        return same(f, out[0], fp.ref_div(f, f.one, r) if n < 0 else r)
    return run


def goals(C):
    for f, s in SUF[1:]:
        def sample(rng, f=f):
            n = rng.choice([rng.randrange(-40, 40), rng.getrandbits(32) - (1 << 31), rng.choice([-1, 1]) * (1 << rng.randrange(31)) + rng.randrange(-2, 3), -(1 << 31)])
            # close to one, so that the products neither vanish nor overflow
            a = rng.choice([f.one ^ rng.getrandbits(rng.randrange(1, f.mb + 1)), rng.getrandbits(f.w), f.one - rng.getrandbits(8)])
            return [a | rng.getrandbits(1) << (f.w - 1), n & mask(32)]
        C.contract("cb", f"__powi{s}2", [("a", f), ("b", "i32")], lambda a, b, r, f=f: [("product chain", eq(r, spec(f, a, b)))],
                   oracle(f), hooks={"fmul": mulop, "fdiv": divop}, samples=sample)
