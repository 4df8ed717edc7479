"""256-bit helper integers, narrowing division and modular reduction."""
from irvc.frame import *
from irvc import callee

W, H = 256, 128
M = (1 << W) - 1


def cat(lo, hi):
    return concat(hi, lo)


def out(f):
    """oracle for a pair of halves"""
    def orc(*a):
        *a, o = a
        if o is None:
            return True
        v = f(*a)
        return None if v is None else o == [v & (1 << H) - 1, v >> H & (1 << H) - 1]
    return orc


def goals(C):
    A = [("al", "u128"), ("ah", "u128")]
    AB = A + [("bl", "u128"), ("bh", "u128")]
    O = [("o", ("out", 32))]
    I = lambda lo, hi: lo | hi << H

    def both(name, args, spec, orc, fits=None, shift=False, **kw):
        """release build: exact modulo 2^256 for all operands; checked build: no panic when the result fits"""
        req = (lambda *a: [ult(a[-1], const(W, 32))]) if shift else None
        dom = (lambda f: lambda *a: (lambda r: r)(f(*a)) if a[-1 - 1] < W else None) if shift else (lambda f: f)
        C.contract("driver_libm_rel", name, args + O, lambda *a: [("exact modulo 2^256", eq(a[-1], spec(*a[:-2])))], dom(out(orc)), requires=req, **kw)
        C.contract("driver_libm", name, args + O, lambda *a: [("exact", eq(a[-1], spec(*a[:-2])))], None,
                   requires=lambda *a: (req(*a) if req else []) + (fits(*a) if fits else []), **kw)
    for t in "ui":
        e = (lambda x: zext(x, W + 1)) if t == "u" else (lambda x: sext(x, W + 1))

        def fits(op, al, ah, bl, bh, t=t, e=e):
            s = op(e(cat(al, ah)), e(cat(bl, bh)))
            return [eq(s, e(trunc(s, W)))]
        both(f"{t}256_add", AB, lambda al, ah, bl, bh: add(cat(al, ah), cat(bl, bh)), lambda al, ah, bl, bh: I(al, ah) + I(bl, bh) & M, fits=lambda *a, fits=fits: fits(add, *a))
        both(f"{t}256_sub", AB, lambda al, ah, bl, bh: sub(cat(al, ah), cat(bl, bh)), lambda al, ah, bl, bh: I(al, ah) - I(bl, bh) & M, fits=lambda *a, fits=fits: fits(sub, *a))
        both(f"{t}256_or", AB, lambda al, ah, bl, bh: or_(cat(al, ah), cat(bl, bh)), lambda al, ah, bl, bh: I(al, ah) | I(bl, bh))
        both(f"{t}256_not", AB, lambda al, ah, bl, bh: not_(cat(al, ah)), lambda al, ah, bl, bh: I(al, ah) ^ M)
        both(f"{t}256_shl", A + [("k", "u32")], lambda al, ah, k: shl(cat(al, ah), zext(k, W)), lambda al, ah, k: I(al, ah) << k & M, shift=True)
        both(f"{t}256_shr", A + [("k", "u32")], lambda al, ah, k, t=t: (lshr if t == "u" else ashr)(cat(al, ah), zext(k, W)),
             lambda al, ah, k, t=t: (I(al, ah) if t == "u" else sx(I(al, ah), W)) >> k & M, shift=True)
        both(f"{t}256_lo_hi", A, cat, I)
        both(f"{t}128_widen", [("a", "u128")], lambda a, t=t: (zext if t == "u" else sext)(a, W), lambda a, t=t: (a if t == "u" else sx(a, H)) & M)
        both(f"{t}128_zero_widen", [("a", "u128")], lambda a: zext(a, W), lambda a: a)
        both(f"{t}128_widen_hi", [("a", "u128")], lambda a: cat(const(0, H), a), lambda a: a << H)
        both(f"{t}128_zero_widen_mul", [("a", "u128"), ("b", "u128")], lambda a, b: mul(zext(a, W), zext(b, W)), lambda a, b: a * b, engine="int")

        def cmpspec(al, ah, bl, bh, r, o, t=t):
            a, b = cat(al, ah), cat(bl, bh)
            lt = (ult if t == "u" else slt)(a, b)
            gt = (ult if t == "u" else slt)(b, a)
            q = eq(a, b)
            return [(n, eq(extract(8 * i + 7, 8 * i, o), b2bv(c, 8))) for i, (n, c) in enumerate((("less", lt), ("equal", q), ("greater", gt), ("less or equal", bor(lt, q))))]

        def cmporc(al, ah, bl, bh, o, t=t):
            a, b = I(al, ah), I(bl, bh)
            if t == "i":
                a, b = sx(a, W), sx(b, W)
            return o is None or o == [int(a < b), int(a == b), int(a > b), int(a <= b)]
        C.contract("driver_libm", f"{t}256_cmp", AB + [("o", ("out", 4))], cmpspec, cmporc)
    for n in ("u256_from_lo_hi", "u256_signed", "i256_unsigned"):
        both(n, A, cat, I)
    both("u128_widen_mul", [("a", "u128"), ("b", "u128")], lambda a, b: mul(zext(a, W), zext(b, W)), lambda a, b: a * b, engine="int")
    for w in (32, 64):
        C.contract("driver_libm", f"u{w}_widen_mul", [("a", f"u{w}"), ("b", f"u{w}"), ("o", ("out", w // 4))],
                   lambda a, b, r, o, w=w: [("exact product", eq(o, mul(zext(a, 2 * w), zext(b, 2 * w))))],
                   lambda a, b, o, w=w: o is None or o == [a * b & (1 << w) - 1, a * b >> w])
    for w in (16, 32, 64, 128, 256):
        h = w // 2

        def ens(lo, hi, n, r, o, h=h, w=w):
            q, m = extract(h - 1, 0, o), extract(w - 1, h, o)
            ok = eq(r, const(1, r.w))
            return [("refused exactly when the quotient does not fit", biff(ok, ult(hi, n))),
                    ("dividend = quotient * divisor + remainder", implies(ok, eq(add(mul(zext(q, w), zext(n, w)), zext(m, w)), concat(hi, lo)))),
                    ("remainder below divisor", implies(ok, ult(m, n)))]

        def orc(lo, hi, n, o, h=h):
            if o is None:
                return True
            return o == ([1, *divmod(hi << h | lo, n)] if hi < n else [0, 0, 0])
        C.contract("driver_libm", f"u{w}_narrowing_div", [("lo", h), ("hi", h), ("n", h), ("o", ("out", w // 8))], ens, orc, engine="int",
                   contracts={**callee.shl256(C), **callee.div3by2(C)} if w == 256 else None)
