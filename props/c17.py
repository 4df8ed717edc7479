"""min/max families, fdim, copysign, fabs."""
from irvc.frame import *
from irvc.fp import *
from props.fpnames import *


def nanq(f, x):
    return x & ~f.signbit > f.inf


def goals(k):
    k.trust.append("native float add/sub/mul and comparisons follow IEEE 754 (round to nearest even); NaN results have arbitrary payload and sign")
    for f, s in LS:
        for n in ("fmin", "fmax"):
            # 754-2008 minNum/maxNum: a number beats a NaN; zeros of either sign compare equal
            def ens(x, y, r, f=f, n=n):
                nx, ny = isnan(f, x), isnan(f, y)
                lt = flt(f, x, y) if n == "fmin" else flt(f, y, x)
                gt = flt(f, y, x) if n == "fmin" else flt(f, x, y)
                return [("both NaN", implies(band(nx, ny), isnan(f, r))),
                        ("first NaN", implies(band(nx, bnot(ny)), eq(r, y))),
                        ("second NaN", implies(band(bnot(nx), ny), eq(r, x))),
                        ("first wins", implies(lt, eq(r, x))), ("second wins", implies(gt, eq(r, y))),
                        ("equal", implies(feq(f, x, y), bor(eq(r, x), eq(r, y))))]

            def orc(x, y, o, f=f, n=n):
                if o is None:
                    return True
                if nanq(f, x) or nanq(f, y):
                    return nanq(f, o[0]) if nanq(f, x) and nanq(f, y) else o[0] == (y if nanq(f, x) else x)
                a, b = fkey(f, x), fkey(f, y)
                if a == b:
                    return o[0] in (x, y)
                return o[0] == (x if (a < b) == (n == "fmin") else y)
            k.contract("libm", n + s, [("x", f), ("y", f)], ens, orc, pat=r"libm::math::\w+::" + n + s)
        for n in ("fminimum", "fmaximum", "fminimum_num", "fmaximum_num"):
            mn = "min" in n.split("_")[0]
            num = n.endswith("_num")

            def ens(x, y, r, f=f, mn=mn, num=num):
                nx, ny = isnan(f, x), isnan(f, y)
                bz = band(iszero(f, x), iszero(f, y))
                lt = bor(flt(f, x, y), band(bz, sign(f, x), bnot(sign(f, y))))
                sel = ite(lt, x, y) if mn else ite(lt, y, x)
                o = band(bnot(nx), bnot(ny))
                l = [("ordered", implies(o, eq(r, sel)))]
                if num:
                    l += [("both NaN", implies(band(nx, ny), isnan(f, r))),
                          ("first NaN", implies(band(nx, bnot(ny)), eq(r, y))),
                          ("second NaN", implies(band(bnot(nx), ny), eq(r, x)))]
                else:
                    l += [("NaN propagates", implies(bor(nx, ny), isnan(f, r)))]
                return l

            def orc(x, y, o, f=f, mn=mn, num=num):
                if o is None:
                    return True
                a, b = nanq(f, x), nanq(f, y)
                if a or b:
                    if num and a != b:
                        return o[0] == (y if a else x)
                    return nanq(f, o[0])
                kx, ky = tkey(f, x), tkey(f, y)
                return o[0] == (x if (kx < ky) == mn or kx == ky else y)
            k.contract("libm", n + s, [("x", f), ("y", f)], ens, orc, pat=r"libm::math::\w+::" + n + s)
        k.contract("libm", "fdim" + s, [("x", f), ("y", f)],
                   lambda x, y, r, f=f: [("positive difference", feq_bits(f, r, ite(funo(f, x, y), nan(f), ite(fle(f, x, y), const(0, f.w), fsub(f, x, y)))))],
                   lambda x, y, o, f=f: o is None or same(f, o[0], f.qnan if nanq(f, x) or nanq(f, y) else 0 if fkey(f, x) <= fkey(f, y) else ref_add(f, x, y ^ f.signbit)),
                   pat=r"libm::math::\w+::fdim" + s)
        k.contract("libm", "copysign" + s, [("x", f), ("y", f)],
                   lambda x, y, r, f=f: [("sign of y", eq(r, concat(extract(f.w - 1, f.w - 1, y), extract(f.w - 2, 0, x))))],
                   lambda x, y, o, f=f: o is None or o[0] == (x & ~f.signbit | y & f.signbit) or nanq(f, x) and o[0] & ~f.signbit == x & ~f.signbit and False,
                   pat=r"libm::math::\w+::copysign" + s)
        k.contract("libm", "fabs" + s, [("x", f)],
                   lambda x, r, f=f: [("sign cleared", eq(r, and_(x, const(~f.signbit, f.w))))],
                   lambda x, o, f=f: o is None or o[0] == x & ~f.signbit, pat=r"libm::math::\w+::fabs" + s)


def fkey(f, x):
    m = x & ~f.signbit
    return -m if x & f.signbit else m


def tkey(f, x):
    m = x & ~f.signbit
    return -m - 1 if x & f.signbit else m
