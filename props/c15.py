"""C15: memory comparison and string length."""
import re
from .memspec import *


def firstdiff(a, M):
    """%k is the first position at which the ranges differ, or n"""
    s1, s2, n, k = a
    return valid(s1, n) + valid(s2, n) + [ule(k, n), bor(eq(k, n), ne(select(M, add(s1, k)), select(M, add(s2, k))))]


def bytes_of(t, M):
    """the bytes of a value read from memory as a whole, or None"""
    if t.w % 8:
        return None
    bs = [extract(8 * i + 7, 8 * i, t) for i in range(t.w // 8)]
    return bs if all(b.op == "select" and b.args[0] is M for b in bs) else None


def differences(a, M, asserts):
    """comparisons of corresponding bytes as one predicate of the position (congruence is all that
    is kept of it), with what the choice of %k says of it: it does not hold before %k"""
    s1, s2, n, k = a
    delta = linear(sub(s2, s1))
    D = lambda off: uf("differ", 0, off)
    pos = {}

    def at(x, y):
        if linear(sub(y, x)) == delta:
            o = lsub(x, s1)
            pos[o.id] = o
            return D(o)
        return None
    m = {}
    for t in postorder(asserts):
        na = [m[x.id] for x in t.args]
        r = None
        if t.op == "eq" and t.args[0].w > 0:
            p, q = bytes_of(t.args[0], M), bytes_of(t.args[1], M)
            if p and q:
                ds = [at(x.args[1], y.args[1]) for x, y in zip(p, q)]
                if None in ds:
                    ds = [at(y.args[1], x.args[1]) for x, y in zip(p, q)]
                if None not in ds:
                    r = bnot(bor(*ds))
        if r is None:
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
        m[t.id] = r
    out = [m[x.id] for x in asserts]
    for o in list(pos.values()):
        out.append(bor(bnot(ult(o, k)), bnot(D(o))))
    # the predicate at %k, where the values themselves may be spoken of
    x, y = [select(M, lsub(add(p, k), K(0))) for p in (s1, s2)]
    out.append(biff(D(k), ne(x, y)))
    return out


def nonzero(a, M, asserts):
    """no byte read before %k is NUL"""
    s, k = a
    return asserts + [bor(bnot(ult(lsub(x.args[1], s), k)), ne(x, const(0, 8))) for x in postorder(asserts) if x.op == "select" and x.args[0] is M]


def s_cmp(rng):
    n = length(rng)
    while True:
        p, q = place(rng, n), place(rng, n)
        if p + n <= q or q + n <= p:
            k = rng.choice([rng.randrange(0, n + 2), n, n - 1 if n else 0, rng.randrange(0, n + 2)])
            x = rng.getrandbits(8)
            y = rng.choice([rng.getrandbits(8), x ^ 0x80, x ^ 1])
            return [p, q, n, rng.randrange(1 << 20), k, x, y]


def s_len(rng):
    n = length(rng)
    return [place(rng, n + 1), n, rng.randrange(1 << 20), rng.getrandbits(1)]


s_cmp.args = ["s1", "s2", "n", "seed", "pos", "x", "y"]
s_len.args = ["s", "len", "seed", "pattern"]


def o_cmp(p, q, n, seed, k, x, y, out):
    if max(p, q) + n > LEN or not (p + n <= q or q + n <= p):
        return None
    b = noise(seed)
    m = min(n, k)
    b[q:q + m] = bytes(b[p:p + m])
    if k < n:
        b[p + k], b[q + k] = x & 255, y & 255
    for i in range(n):
        if b[p + i] != b[q + i]:
            return out is not None and (out[0] >> 31 == 1) == (b[p + i] < b[q + i]) and out[0] != 0
    return out == [0]


def o_bcmp(*a):
    p, q, n, seed, k, x, y, out = a
    r = o_cmp(p, q, n, seed, k, x, y, [0])
    return None if r is None else out is not None and (out[0] == 0) == r


def o_len(p, n, seed, pat, out):
    return out == [n] if p + n < LEN else None


def cmp_post(a, r, M, M2):
    s1, s2, n, k = a
    x, y = select(M, add(s1, k)), select(M, add(s2, k))
    z = const(0, 32)
    return [("zero if there is no difference", bor(ne(k, n), eq(r, z))),
            ("sign of the first difference", bor(eq(k, n), band(ne(r, z), biff(slt(r, z), ult(x, y)))))]


def comparers(C, cfg):
    """helpers of the comparison with the same contract as the whole, proved one on top of the
    other; one that has no such contract is inlined instead"""
    mod = C.module(cfg)
    names = sorted({p for n, p in mod.pretty.items() if n in mod.defs and re.fullmatch(r".*compare_bytes::\{closure#\d+\}", p)})
    have = {}
    for name in names:
        def callee(ctx, nm, args, i, g, mem, name=name):
            if len(args) < 3 or not all(isinstance(p, Ptr) for p in args[-3:-1]) or not isinstance(args[-1], T):
                return NotImplemented
            top = ctx.whole
            s1, s2, n, k = top
            a, b = [ctx.p2i(p) for p in args[-3:-1]]
            m = args[-1]
            d = lsub(a, s1)
            ctx.oblige("requires", "compares corresponding parts of the ranges", g, band(eq(lsub(b, s2), d), ule(d, n), ule(m, sub(n, d))))
            r = fresh("cmp", 32)
            z = const(0, 32)
            kk = sub(k, d)
            x, y = select(mem[ctx.flat], add(s1, k)), select(mem[ctx.flat], add(s2, k))
            ctx.assume(g, bor(ult(k, d), ite_b(ule(m, kk), eq(r, z), band(ne(r, z), biff(slt(r, z), ult(x, y))))))
            return r, mem, g
        n0 = len(C.vcs), len(C.under_contract), len(C.errors), C.covers
        run_memcmp(C, cfg, name.split("::")[-2] + "::" + name.split("::")[-1], cmp_post, o_cmp, dict(have), pat=re.escape(name), replay="memcmp", env=True)
        rs = {}
        mine = C.vcs[n0[0]:]
        todo = [v for v in mine if v.res is None]
        for i, r in solve.run_parallel(todo, lambda v: v.solver(v, 60) if v.solver else solve.sat(v.asserts, timeout=60, tool="cadical"), 8):
            todo[i].res = r if isinstance(r, solve.Result) else solve.Result("unknown")
        if len(C.errors) == n0[2] and all(v.res is not None and v.res.st == "unsat" for v in mine):
            have[re.escape(name)] = callee
        else:
            if C.verbose:
                print("no contract for", name, [(v.name, v.res) for v in mine if v.res.st != "unsat"][:3])
            del C.vcs[n0[0]:], C.under_contract[n0[1]:], C.errors[n0[2]:]
            C.covers = n0[3]
    return have


def ite_b(c, a, b):
    return bite(c, a, b)


def run_memcmp(C, cfg, name, post, orc, contracts, pat=None, replay=None, env=False):
    C.memory(cfg, name, [("s1", "p"), ("s2", "p"), ("n", "u64"), ("%k", "u64")], firstdiff, post, orc, s_cmp, pat=pat, replay=replay, env=env, contracts=contracts,
             reads=lambda a, lo, n: bor(inside(lo, n, a[0], a[2]), inside(lo, n, a[1], a[2])),
             writes=lambda a, lo, n: FALSE, marks=lambda a: [add(a[0], a[3])], lemmas=differences, shape=lambda s, d, n, k: [s, add(s, d), n, k])


def goals(C):
    for cfg in ("cb", "cb_arch"):
        have = comparers(C, cfg)
        run_memcmp(C, cfg, "memcmp", cmp_post, o_cmp, have)
        run_memcmp(C, cfg, "bcmp", lambda a, r, M, M2: [("zero exactly for equal ranges", biff(eq(r, const(0, 32)), eq(a[3], a[2])))], o_bcmp, have)
        def nul(a, M):
            s, k = a
            return [ne(s, K(0)), ult(k, K(1 << 62)), ult(s, neg(add(k, K(1)))), ult(s, K(mask(64) - 4096)), eq(select(M, add(s, k)), const(0, 8))]
        C.memory(cfg, "strlen", [("s", "p"), ("%k", "u64")], nul, lambda a, r, M, M2: [("index of the first NUL", eq(r, a[1]))], o_len, s_len,
                 reads=lambda a, lo, n: bor(inside(lo, n, a[0], add(a[1], K(1))), touches(lo, n, a[0], add(a[1], K(1)))),
                 writes=lambda a, lo, n: FALSE, marks=lambda a: [add(a[0], a[1])], lemmas=nonzero)
