"""Operands whose exact result lies at or next to a rounding boundary (for the search on real code)."""
from irvc.frame import *


def encode(f, s, m, e):
    """the float (-1)^s * m * 2^e if it is one, else None (m > 0)"""
    z = (m & -m).bit_length() - 1
    m, e = m >> z, e + z
    emin = 1 - f.bias - f.mb
    if m.bit_length() > f.mb + 1:
        return None
    if e < emin:
        return None
    up = min(e - emin, f.mb + 1 - m.bit_length())
    m, e = m << up, e - up
    if m.bit_length() <= f.mb:
        return s << f.w - 1 | m
    x = e + f.mb + f.bias
    return None if x >= f.expmask else s << f.w - 1 | x << f.mb | m & mask(f.mb)


def near_mul(f, rng):
    """A, B of full precision and e with A*B*2^e at or next to a tie of the format"""
    p = f.mb + 1
    emin = 1 - f.bias - f.mb
    for _ in range(4000):
        A = rng.getrandbits(p) | 1 << p - 1
        kind = rng.randrange(3)
        if kind == 0:           # low bits of the product prescribed
            A |= 1
            k = rng.randrange(1, p + 1)
            t = (1 << k - 1) + rng.choice([0, 0, 1, -1, 2, -2, rng.randrange(-8, 9)])
            B = t * pow(A, -1, 1 << k) % (1 << k)
            B |= rng.getrandbits(p) >> k << k
            if B == 0:
                continue
            k = k if rng.getrandbits(1) else (A * B).bit_length() - p
        else:                   # few bits remain of a tiny product, which is next to a tie
            a = rng.randrange(1, min(p, 11))
            k = 2 * p - a - rng.randrange(2)
            T = (2 * rng.getrandbits(a) + 1) << k - 1
            B = T // A + (kind - 1)
            if abs(A * B - T) >> p - a + 2 or B.bit_length() != p:
                continue
        e = emin - k if kind or rng.randrange(4) else rng.randrange(emin - k, f.bias - 2 * p)
        return A, B, e
    return A, A, emin


def s_mul(f):
    def s(rng):
        if rng.randrange(3) == 0:
            return [corner(rng, f.w, f), corner(rng, f.w, f)]
        A, B, e = near_mul(f, rng)
        for _ in range(30):
            x = rng.randrange(1 - f.bias - f.mb, f.bias - f.mb)
            a, b = encode(f, rng.getrandbits(1), A, x), encode(f, rng.getrandbits(1), B, e - x)
            if a is not None and b is not None:
                return [a, b] if rng.getrandbits(1) else [b, a]
        return [corner(rng, f.w, f), corner(rng, f.w, f)]
    return s


def s_fma(f):
    """products next to a tie of the sum: the addend dominates, vanishes, cancels, or the sum is subnormal"""
    p, emin = f.mb + 1, 1 - f.bias - f.mb

    def factors(rng, m, e):
        """a, b with a*b = m*2^e exactly, m = A*B given as a pair"""
        A, B = m
        for _ in range(20):
            x = rng.choice([rng.randrange(emin, f.bias - f.mb), e // 2 + rng.randrange(-p, p)])
            a, b = encode(f, rng.getrandbits(1), A, x), encode(f, rng.getrandbits(1), B, e - x)
            if a is not None and b is not None:
                return (a, b) if rng.getrandbits(1) else (b, a)
        return None

    def power(rng):
        """A*B a little above or below an odd multiple of a power of two: (A, B), the power"""
        for _ in range(4000):
            A = rng.getrandbits(p) | 1 << p - 1
            a = rng.randrange(0, 9)
            k = 2 * p - 2 - a + rng.randrange(2)
            T = (2 * rng.getrandbits(a) + 1) << k
            B = T // A + rng.randrange(2)
            if B.bit_length() <= p and abs(A * B - T) >> p - 10 == 0:
                return (A, B), k
        return (1, 1), 0

    def s(rng):
        kind = rng.randrange(8)
        for _ in range(50):
            if kind < 2:                # half a unit of z, and a little
                m, k = power(rng)
                ez = rng.choice([rng.randrange(emin, f.bias - f.mb), emin + rng.randrange(4)])
                ab = factors(rng, m, ez - 1 - k + (rng.randrange(-1, 2) if kind else 0))
                z = rng.getrandbits(p) | 1 << p - 1
                if rng.randrange(3) == 0:
                    z = 1 << p - 1
                if ez == emin and rng.getrandbits(1):
                    z >>= rng.randrange(p)
                c = encode(f, rng.getrandbits(1), z or 1, ez)
            elif kind < 4:              # product at a tie, z decides
                A, B, e = near_mul(f, rng)
                if rng.getrandbits(1):
                    e = rng.randrange(emin - p, f.bias - 3 * p)
                ab = factors(rng, (A, B), e)
                c = encode(f, rng.getrandbits(1), rng.getrandbits(p) | 1, max(emin, e - rng.randrange(-p, 3 * p)))
            elif kind == 4:             # cancellation
                a, b = corner(rng, f.w, f), corner(rng, f.w, f)
                ab = (a, b)
                c = (fp.ref_mul(f, a, b) ^ f.signbit) + rng.choice([0, 0, 1, -1, rng.randrange(-9, 9)]) & mask(f.w)
            elif kind == 5:             # short products, subnormal sums
                A, B = rng.getrandbits(rng.randrange(1, p + 1)) | 1, rng.getrandbits(rng.randrange(1, p + 1)) | 1
                e = emin - rng.randrange(0, 2 * p + 2)
                ab = factors(rng, (A, B), e)
                c = rng.getrandbits(1) << f.w - 1 | rng.choice([rng.getrandbits(rng.randrange(1, f.mb + 2)), (1 << f.mb) + rng.randrange(-3, 4)])
            else:
                ab, c = (corner(rng, f.w, f), corner(rng, f.w, f)), corner(rng, f.w, f)
            if ab and c is not None:
                return [ab[0], ab[1], c]
        return [corner(rng, f.w, f) for _ in range(3)]
    return s
