#!/usr/bin/env python3-vt
"""Random small formulas: the integer back end and the sweeping back end against brute force.
usage: selftest_int.py [n]     (selftest_sweep.py is the same file run with the sweeping solver)"""
import itertools, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
from irvc.term import *
from irvc import solve, intb


def rterm(rng, vs, d):
    if d == 0 or rng.random() < 0.1:
        return rng.choice(vs) if rng.random() < 0.8 else const(rng.getrandbits(4), 4)
    r = lambda: rterm(rng, vs, d - 1)
    k = rng.randrange(16)
    x = r()
    if k < 8:
        f = [add, sub, mul, and_, or_, xor, udiv, urem][k]
        return f(x, r())
    if k == 8:
        return not_(x)
    if k == 9:
        h = rng.randrange(4)
        l = rng.randrange(h + 1)
        return resize(extract(h, l, x), 4)
    if k == 10:
        return trunc(concat(trunc(x, 2), extract(3, 1, r())), 4)
    if k == 11:
        return ite(rbool(rng, vs, d - 1), x, r())
    if k == 12:
        return rng.choice([shl, lshr])(x, and_(r(), const(3, 4)))
    if k == 13:
        return trunc(lshr(mul(zext(x, 8), zext(r(), 8)), const(rng.randrange(8), 8)), 4)
    if k == 14:
        return trunc(sext(trunc(x, 3), 6), 4)
    return clz(x)


def rbool(rng, vs, d):
    k = rng.randrange(6)
    if d == 0 or k < 4:
        return rng.choice([eq, ult, slt, ule])(rterm(rng, vs, d), rterm(rng, vs, d))
    if k == 4:
        return bnot(rbool(rng, vs, d - 1))
    return rng.choice([band, bor, bxor])(rbool(rng, vs, d - 1), rbool(rng, vs, d - 1))


def main(which):
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    rng = random.Random(7)
    vs = [var("x", 4), var("y", 4), var("z", 4)]
    st = {}
    for it in range(n):
        fs = [rbool(rng, vs, rng.randrange(1, 4)) for _ in range(rng.randrange(1, 5))]
        if rng.random() < 0.5:      # an identity with rewritten sides, more often unsatisfiable
            a, b, c = (rterm(rng, vs, 1) for _ in range(3))
            fs = [ne(rng.choice([mul(a, add(b, c)), sub(a, sub(b, c))]), rng.choice([add(mul(a, b), mul(a, c)), add(sub(a, b), c)]))] + fs[:1]
        f = band(*fs)
        env = None
        for v in itertools.product(range(16), repeat=3):
            e = dict(zip(vs, v))
            if evaluate([f], e)[0]:
                env = e
                break
        if which == "int":
            r = intb.sat(fs, timeout=20)
        else:
            k = rng.randrange(len(fs) + 1)
            r = solve.swept(fs[:k], fs[k:], (lambda g: {v: g.getrandbits(4) for v in vs}), npat=64, timeout=20)
        if r.st == "unsat":
            assert env is None, (it, r, fs, env)
        if r.st == "sat":
            assert env is not None, (it, r, fs)
            assert evaluate([f], {v: r.model.get(v, 0) for v in vs})[0], (it, r, fs)
        st[(r.st, env is not None)] = st.get((r.st, env is not None), 0) + 1
    print(which, "(answer, satisfiable): count", st)


if __name__ == "__main__":
    main("sweep" if "sweep" in os.path.basename(sys.argv[0]) else "int")
