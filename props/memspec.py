"""Ranges of flat memory and the pseudo-random buffers used for replay."""
from irvc.frame import *

LEN = 1 << 13          # bytes between the guard pages of the replay buffer
K = lambda v: const(v, 64)


def inside(lo, n, base, size):
    """[lo, lo+n) is within [base, base+size); n > 0"""
    return band(ule(n, size), ule(sub(lo, base), sub(size, n)))


def touches(lo, n, base, size):
    """an aligned word of at most 16 bytes with at least one byte of [base, base+size)"""
    return bor(*[band(eq(n, K(z)), eq(and_(lo, K(z - 1)), K(0)), ne(size, K(0)),
                      bor(ult(sub(lo, base), size), ult(sub(base, lo), n))) for z in (2, 4, 8, 16)])


def valid(p, n):
    """a non-null range whose end is an address too"""
    return [ne(p, K(0)), ult(n, K(1 << 63)), bor(eq(n, K(0)), ult(p, neg(n)))]


def noise(seed):
    """the initial buffer"""
    x = (seed * 0x9E3779B97F4A7C15 + 0x1234567) & mask(64) or 1
    out = bytearray(LEN)
    for i in range(0, LEN, 8):
        x ^= (x << 13) & mask(64)
        x ^= x >> 7
        x ^= (x << 17) & mask(64)
        out[i:i + 8] = x.to_bytes(8, "little")
    return out


def digest(b):
    """FNV-1a over 64-bit words"""
    h = 0xcbf29ce484222325
    for i in range(0, len(b), 8):
        h = ((h ^ int.from_bytes(b[i:i + 8], "little")) * 0x100000001b3) & mask(64)
        h ^= h >> 29
    return h


def length(rng):
    return rng.choice([rng.randrange(0, 40), rng.randrange(0, 200), rng.randrange(0, 2000), 8 * rng.randrange(0, 30), rng.choice([0, 1, 7, 8, 15, 16, 17, 23, 24, 31, 32, 33])])


def place(rng, n):
    """start of an n-byte range in the buffer, sometimes against a guard page"""
    return rng.choice([0, LEN - n, rng.randrange(0, LEN - n + 1), 8 * rng.randrange(0, (LEN - n) // 8 + 1), rng.randrange(0, 8), max(0, LEN - n - rng.randrange(16))])
