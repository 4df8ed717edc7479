#!/usr/bin/env python3-vt
"""The contracts of native float operations (irvc/absfp.py) hold of the reference operations."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from irvc.term import *
from irvc import fp, absfp
from irvc.frame import corner

rng = random.Random(1)
n = 0


def special(f):
    m = 1 << (f.w - 1)
    return [0, m, f.inf, f.inf | m, f.qnan, f.inf + 1, f.one, f.one | m, 1, m | 1, f.inf - 1, 1 << f.mb, (1 << f.mb) - 1, absfp.MAGIC[f.name]]


def pick(f, other=None):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(special(f))
    if k == 1 and other is not None:
        return other ^ (rng.getrandbits(1) << (f.w - 1)) ^ rng.choice([0, 0, 1, 2])
    return corner(rng, f.w, f)


def interp(f, g=None):
    """meaning of the uninterpreted results: magnitudes in, magnitude out"""
    def run(t, vals):
        k = t.x.split(".")
        if k[0] == "nan":
            return 0
        op = k[0]
        if op == "mul":
            r = fp.ref_mul(f, *vals)
        elif op == "div":
            r = fp.ref_div(f, *vals)
        elif op == "add":
            r = fp.ref_add(f, *vals)
        elif op == "sqrt":
            r = fp.ref_sqrt(f, vals[0])
        elif op == "rint":
            r = fp.ref_round_int(f, vals[0], fp.RNE)
        elif op == "conv":
            r = fp.ref_conv(f, g, vals[0])
        t = g or f
        if r & (t.signbit - 1) > t.inf:
            r = 0
        return r if op == "add" else r & (t.signbit - 1)
    return run


def check(what, A, r, ref, f, env, run, only=None):
    global n
    n += 1
    vals = evaluate([r] + list(A.axioms.values()), env, run)
    got, ax = vals[0], vals[1:]
    nan = lambda v: v & (f.signbit - 1) > f.inf
    if not (got == ref or nan(got) and nan(ref)):
        sys.exit(f"{what}: {[hex(v) for v in env.values()]} got {got:#x} expected {ref:#x}")
    if not all(ax):
        sys.exit(f"{what}: axiom fails for {[hex(v) for v in env.values()]}")


for f in (fp.F16, fp.F32, fp.F64, fp.F128):
    a, b = var("a", f.w), var("b", f.w)
    for op, ref in (("add", fp.ref_add), ("mul", fp.ref_mul), ("div", fp.ref_div)):
        A = absfp.Abs()
        r = getattr(A, op)(None, f, a, b)
        for _ in range(4000):
            x = pick(f)
            y = pick(f, x)
            check(op, A, r, ref(f, x, y), f, {a: x, b: y}, interp(f))
    for k in [-5, -1, 1, 2, 3, f.mb, f.mb + 2]:
        for s in (0, f.signbit):
            if abs(k) >= f.bias:
                continue
            A = absfp.Abs()
            y = (f.bias + k) << f.mb | s
            r = A.mul(None, f, a, const(y, f.w))
            for _ in range(300):
                x = pick(f)
                check("scale", A, r, fp.ref_mul(f, x, y), f, {a: x}, interp(f))
    A = absfp.Abs()
    r = A.sqrt(None, f, a)
    for _ in range(1000):
        x = pick(f)
        check("sqrt", A, r, fp.ref_sqrt(f, x), f, {a: x}, interp(f))
    A = absfp.Abs()
    M = absfp.MAGIC[f.name]
    r = A.add(None, f, A.add(None, f, a, const(M, f.w)), const(M ^ f.signbit, f.w))
    for _ in range(3000):
        x = pick(f)
        check("rint", A, r, fp.ref_add(f, fp.ref_add(f, x, M), M ^ f.signbit), f, {a: x}, interp(f))
for f, g in ((fp.F32, fp.F64), (fp.F64, fp.F32), (fp.F64, fp.F16), (fp.F128, fp.F64), (fp.F64, fp.F128)):
    a = var("a", f.w)
    A = absfp.Abs()
    r = A.conv(None, f, g, a)
    for _ in range(2000):
        x = pick(f)
        check("conv", A, r, fp.ref_conv(f, g, x), g, {a: x}, interp(f, g))
print("ok", n)
