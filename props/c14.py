"""C14: memory copy, move and fill."""
from .memspec import *


def copy_post(a, r, M, M2):
    d, s, n, x = a
    return [("returns the destination", eq(r, d)),
            ("every byte", eq(select(M2, x), ite(ult(sub(x, d), n), select(M, add(s, sub(x, d))), select(M, x))))]


def set_post(a, r, M, M2):
    d, c, n, x = a
    return [("returns the destination", eq(r, d)),
            ("every byte", eq(select(M2, x), ite(ult(sub(x, d), n), trunc(c, 8), select(M, x))))]


def s_copy(rng):
    n = length(rng)
    while True:
        d, s = place(rng, n), place(rng, n)
        if d + n <= s or s + n <= d:
            return [d, s, n, rng.randrange(1 << 20)]


def s_move(rng):
    n = length(rng)
    d = place(rng, n)
    s = rng.choice([place(rng, n), max(0, min(LEN - n, d + rng.randrange(-40, 41))), max(0, min(LEN - n, d + rng.randrange(-n - 9, n + 10)))])
    return [d, s, n, rng.randrange(1 << 20)]


def s_set(rng):
    n = length(rng)
    return [place(rng, n), rng.choice([rng.getrandbits(8), rng.getrandbits(32), 0, 255]), n, rng.randrange(1 << 20)]


s_copy.args = s_move.args = ["dest", "src", "n", "seed"]
s_set.args = ["dest", "c", "n", "seed"]


def o_copy(d, s, n, seed, out):
    if max(d, s) + n > LEN:
        return None
    b = noise(seed)
    b[d:d + n] = bytes(b[s:s + n])
    return out == [d, digest(b)]


def o_memcpy(d, s, n, seed, out):
    return o_copy(d, s, n, seed, out) if d + n <= s or s + n <= d else None


def o_set(d, c, n, seed, out):
    if d + n > LEN:
        return None
    b = noise(seed)
    b[d:d + n] = bytes([c & 255]) * n
    return out == [d, digest(b)]


def goals(C):
    x = ("%x", "u64")
    aligned = ["driver_mem"] if not QUICK and C.driver("driver_mem") else []      # 10 minutes of solving
    for cfg in ["cb", "cb_arch"] + aligned:
        for name, smp, orc in (("memcpy", s_copy, o_memcpy), ("memmove", s_move, o_copy)):
            def req(a, M, name=name):
                d, s, n, x = a
                far = [ule(n, sub(d, s)), ule(n, sub(s, d))] if name == "memcpy" else []
                return valid(d, n) + valid(s, n) + far
            C.memory(cfg, ("aligned_" if cfg in aligned else "") + name, [("dest", "p"), ("src", "p"), ("n", "u64"), x], req, copy_post, orc, smp, shape=lambda d, s, n, x: [d, add(d, s), n, add(d, x)],
                     reads=lambda a, lo, n: bor(inside(lo, n, a[1], a[2]), touches(lo, n, a[1], a[2])),
                     writes=lambda a, lo, n: inside(lo, n, a[0], a[2]))
        if cfg in aligned:
            continue
        C.memory(cfg, "memset", [("s", "p"), ("c", "i32"), ("n", "u64"), x], lambda a, M: valid(a[0], a[2]), set_post, o_set, s_set, shape=lambda d, c, n, x: [d, c, n, add(d, x)],
                 reads=lambda a, lo, n: FALSE, writes=lambda a, lo, n: inside(lo, n, a[0], a[2]))
