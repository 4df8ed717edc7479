"""Exponent manipulation."""
from irvc.frame import *
from irvc.fp import *
from irvc import fp as FP
from props.fpnames import *


def goals(k):
    k.trust.append("native float add/sub/mul and comparisons follow IEEE 754 (round to nearest even); NaN results have arbitrary payload and sign")
    for f, s in LS:
        P = lambda n, s=s: r"libm::math::\w+::" + n + s

        def fre(x, r, f=f):
            m, e = r
            sg, ex = sig_exp(f, x)
            lz = clz(sg)
            norm = shl(sg, lz)
            fin = band(isfinite(f, x), bnot(iszero(f, x)))
            want = concat(extract(f.w - 1, f.w - 1, x), concat(const(f.bias - 1, f.eb), extract(f.mb - 1, 0, norm)))
            return [("fraction", implies(fin, eq(m, want))),
                    ("exponent", implies(fin, eq(e, sub(sub(zext(ex, 32), const(f.bias - 1, 32)), resize(lz, 32))))),
                    ("zero", implies(iszero(f, x), band(eq(m, x), eq(e, const(0, 32))))),
                    ("special", implies(bnot(isfinite(f, x)), feq_bits(f, m, x)))]

        def freo(x, o, f=f):
            if o is None:
                return True
            a = x & ~f.signbit
            if a == 0:
                return o == [x, 0]
            if a >= f.inf:
                return same(f, o[0], x)
            v, w = val(f, x), val(f, o[0])
            return (o[0] & ~f.signbit) >> f.mb == f.bias - 1 and v == w * Fraction(2) ** sx(o[1], 32)
        k.contract("libm", "frexp" + s, [("x", f)], fre, freo, pat=P("frexp"), sret=[(0, f.w // 8), (f.w // 8, 4)])

        def ilo(x, r, f=f):
            sg, ex = sig_exp(f, x)
            fin = band(isfinite(f, x), bnot(iszero(f, x)))
            return [("exponent", implies(fin, eq(r, sub(sub(zext(ex, 32), const(f.bias, 32)), resize(clz(sg), 32))))),
                    ("zero or NaN", implies(bor(iszero(f, x), isnan(f, x)), eq(r, const(1 << 31, 32)))),
                    ("infinity", implies(isinf(f, x), eq(r, const((1 << 31) - 1, 32))))]

        def iloo(x, o, f=f):
            if o is None:
                return True
            a = x & ~f.signbit
            if a == 0 or a > f.inf:
                return o == [1 << 31]
            if a == f.inf:
                return o == [(1 << 31) - 1]
            return sx(o[0], 32) == ilog2(val(f, a))
        k.contract("libm", "ilogb" + s, [("x", f)], ilo, iloo, pat=P("ilogb"))

        def sca(x, n, r, f=f):
            return [("x times 2^n rounded once", feq_bits(f, r, scaled(f, x, n)))]

        def scao(x, n, o, f=f):
            if o is None:
                return True
            a = x & ~f.signbit
            if a == 0 or a >= f.inf:
                return same(f, o[0], x)
            nn = max(-40000, min(40000, sx(n, 32)))
            return same(f, o[0], rnd(f, val(f, x) * Fraction(2) ** nn, x >> (f.w - 1)))

        def smp(rng, f=f):
            n = rng.choice([rng.randrange(-3 * f.bias - 400, 3 * f.bias + 400), rng.randrange(-f.mb * 2, f.mb * 2), corner(rng, 32)])
            return [corner(rng, f.w, f), n % (1 << 32)]
        def spl(x, n, f=f):
            if f.w < 64:
                return [("", TRUE)]
            sub_ = eq(expf(f, x), const(0, f.eb))
            b = [-3 * f.bias, -2 * f.bias, -f.bias - f.mb, -f.bias, 0, f.bias, 2 * f.bias, 3 * f.bias]
            rs = [(f"n < {b[0]}", slt(n, const(b[0], 32)))]
            rs += [(f"{lo} <= n < {hi}", band(sle(const(lo, 32), n), slt(n, const(hi, 32)))) for lo, hi in zip(b, b[1:])]
            rs += [(f"n >= {b[-1]}", sle(const(b[-1], 32), n))]
            return [(l + t, band(c, c2)) for l, c in rs for t, c2 in ((", subnormal", sub_), (", normal", bnot(sub_)))]
        for n in ("scalbn", "ldexp"):
            k.contract("libm", n + s, [("x", f), ("n", "i32")], sca, scao, pat=P(n), samples=smp, split=spl)
    for f, s in LS[1:3]:
        P = lambda n, s=s: r"libm::math::\w+::" + n + s

        def mo(x, r, f=f):
            fr, it = r
            e = round_int(f, x, RTZ)
            ok = isfinite(f, x)
            fe = ite(eq(e, x), zero(f, sign(f, x)), fsub(f, x, e))
            return [("integer part", feq_bits(f, it, e)),
                    ("fraction", implies(ok, eq(fr, fe))),
                    ("infinity", implies(isinf(f, x), eq(fr, zero(f, sign(f, x))))),
                    ("NaN", implies(isnan(f, x), isnan(f, fr)))]

        def moo(x, o, f=f):
            if o is None:
                return True
            a = x & ~f.signbit
            sg = x & f.signbit
            e = ref_round_int(f, x, RTZ)
            if not same(f, o[1], e):
                return False
            if a > f.inf:
                return o[0] & ~f.signbit > f.inf
            if a == f.inf or e == x:
                return o[0] == sg
            return o[0] == ref_add(f, x, e ^ f.signbit)
        k.contract("libm", "modf" + s, [("x", f)], mo, moo, pat=P("modf"))

        def nx(x, y, r, f=f):
            un = funo(f, x, y)
            e = feq(f, x, y)
            xz = iszero(f, x)
            up = flt(f, x, y)
            away = biff(up, bnot(sign(f, x)))
            step = ite(away, add(x, const(1, f.w)), sub(x, const(1, f.w)))
            tiny = concat(extract(f.w - 1, f.w - 1, y), const(1, f.w - 1))
            o = band(bnot(un), bnot(e))
            return [("NaN", implies(un, isnan(f, r))), ("equal gives y", implies(e, eq(r, y))),
                    ("from zero", implies(band(o, xz), eq(r, tiny))),
                    ("neighbour", implies(band(o, bnot(xz)), eq(r, step)))]

        def nxo(x, y, o, f=f):
            if o is None:
                return True
            ax, ay = x & ~f.signbit, y & ~f.signbit
            if ax > f.inf or ay > f.inf:
                return o[0] & ~f.signbit > f.inf
            kx, ky = (-ax if x & f.signbit else ax), (-ay if y & f.signbit else ay)
            if kx == ky:
                return o[0] == y
            if ax == 0:
                return o[0] == y & f.signbit | 1
            return o[0] == (x + 1 if (ky > kx) == (not x & f.signbit) else x - 1)
        k.contract("libm", "nextafter" + s, [("x", f), ("y", f)], nx, nxo, pat=P("nextafter"))


def scaled(f, x, n):
    sg, ex = sig_exp(f, x)
    ew = 36
    e = add(sub(zext(ex, ew), const(f.bias + f.mb, ew)), sext(n, ew))
    fin = round_pack(f, sign(f, x), e, sg)
    return ite(bnot(isfinite(f, x)), x, ite(iszero(f, x), x, fin))
