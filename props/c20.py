"""C20: fused multiply-add rounds once.

The specification rounds the exact sum.  Where the exponents of product and addend are far apart
the smaller term is a sticky bit below everything that can matter; otherwise the sum is formed
exactly, one case per distance."""
from irvc.frame import *
from .fpnames import *
from .near import s_fma
from irvc import callee

FMTS = [(fp.F16, "fmaf16"), (fp.F32, "fmaf"), (fp.F64, "fma"), (fp.F128, "fmaf128")]


def special(f, a, b, c):
    """a zero, infinite or NaN operand"""
    return bor(*[bor(fp.iszero(f, x), bnot(fp.isfinite(f, x))) for x in (a, b, c)])


def parts(f, a, b, c):
    """normalised significands and exponents of their last bits (eb+4 signed bits): P = sa*sb, ep; sc, ez"""
    (sa, ea), (sb, eb), (sc, ec) = [fp.sig_exp_norm(f, x) for x in (a, b, c)]
    ew = f.eb + 4
    ep = sub(add(sext(ea, ew), sext(eb, ew)), const(2 * (f.bias + f.mb), ew))
    ez = sub(sext(ec, ew), const(f.bias + f.mb, ew))
    return fp.default_mul(sa, sb, 2 * f.p), ep, sc, ez


def total(f, a, b, c, P, Z, e):
    """(-1)^.. P*2^e + (-1)^.. Z*2^e rounded; P, Z of one width"""
    sp, sz = bxor(fp.sign(f, a), fp.sign(f, b)), fp.sign(f, c)
    W = max(P.w, Z.w) + 1
    P, Z = zext(P, W), zext(Z, W)
    es, less = bxor(sp, sz), ult(P, Z)
    S = ite(es, ite(less, sub(Z, P), sub(P, Z)), add(P, Z))
    s = ite(eq(S, const(0, W)), band(sp, sz), ite(band(es, less), sz, sp))
    return fp.round_pack(f, s, e, S)


def fixed(f, a, b, c):
    """everything as multiples of the smallest product; for the narrow format"""
    (sa, ea), (sb, eb), (sc, ec) = [fp.sig_exp(f, x) for x in (a, b, c)]
    W = 2 * f.expmask + 2 * f.p
    P = shl(zext(fp.default_mul(sa, sb, 2 * f.p), W), zext(add(zext(sub(ea, const(1, f.eb)), f.eb + 1), zext(sub(eb, const(1, f.eb)), f.eb + 1)), W))
    Z = shl(zext(sc, W), add(zext(sub(ec, const(1, f.eb)), W), const(f.bias + f.mb - 1, W)))
    return total(f, a, b, c, P, Z, const(2 * (1 - f.bias - f.mb), f.eb + 4))


def gen(f, d=None):
    """patterns; with d: the last bit of the addend is d places above the last bit of the product"""
    smp = s_fma(f)
    p, emin = f.p, 1 - f.bias - f.mb

    def g(rng):
        if d is None or rng.randrange(8) == 0:
            return dict(zip("abc", smp(rng)))
        for _ in range(50):
            A, B, Z = [rng.choice([rng.getrandbits(p), rng.getrandbits(p) >> rng.randrange(p) << rng.randrange(p) & mask(p), 0, mask(p)]) | 1 << p - 1 for _ in range(3)]
            if rng.randrange(4) == 0:       # cancellation
                Z = A * B >> d & mask(p) | 1 << p - 1 if 0 <= d < 2 * p else Z
            ez = rng.choice([rng.randrange(emin, f.bias - f.mb), emin + rng.randrange(-p, p), f.bias - f.mb - rng.randrange(p)])
            ep = ez - d
            ea = rng.choice([ep // 2 + rng.randrange(-4, 5), rng.randrange(emin, f.bias - f.mb), emin - rng.randrange(p)])
            eb = ep - ea
            r = []
            for m, e in ((A, ea), (B, eb), (Z, ez)):
                x = None
                if e < emin and emin - e < p:
                    m, e = m >> emin - e << emin - e, e
                if m:
                    x = fenc(f, rng.getrandbits(1), m, e)
                r.append(x)
            if None not in r:
                return dict(zip("abc", r))
        return dict(zip("abc", smp(rng)))
    return g


def fenc(f, s, m, e):
    from .near import encode
    return encode(f, s, m, e)


def special_cases(f, a, b, c):
    """what the standard prescribes for zeros, infinities and NaN; the exact sum is then one of its terms"""
    sp, sz = bxor(fp.sign(f, a), fp.sign(f, b)), fp.sign(f, c)
    nf = bor(*[bnot(fp.isfinite(f, x)) for x in (a, b, c)])
    pinf = bor(fp.isinf(f, a), fp.isinf(f, b))
    pz = bor(fp.iszero(f, a), fp.iszero(f, b))
    nan = bor(*[fp.isnan(f, x) for x in (a, b, c)], band(pinf, bor(pz, band(fp.isinf(f, c), bxor(sp, sz)))))
    same_ = lambda x: lambda r: fp.feq_bits(f, r, x)
    return [("infinity or NaN", nf, gen(f), same_(ite(nan, fp.nan(f), ite(pinf, fp.inf(f, sp), c)))),
            ("product zero", band(bnot(nf), pz), gen(f), same_(ite(fp.iszero(f, c), fp.zero(f, band(sp, sz)), c))),
            ("addend zero", band(bnot(nf), bnot(pz), fp.iszero(f, c)), gen(f), same_(fp.fmul(f, a, b, norm=True)))]


def distances(f, a, b, c, only=None):
    P, ep, sc, ez = parts(f, a, b, c)
    fin = bnot(special(f, a, b, c))
    d = sub(ez, ep)
    w, p = d.w, f.p
    lo, hi = -(p + 2), 2 * p + 2
    cs = lambda v: const(v & mask(w), w)
    out = []
    R = lambda x: lambda r: fp.feq_bits(f, r, x())
    for k in only or range(lo, hi + 1):
        if k >= 0:
            spec = lambda k=k: total(f, a, b, c, zext(P, max(2 * p, p + k)), shl(zext(sc, max(2 * p, p + k)), const(k, max(2 * p, p + k))), ep)
        else:
            spec = lambda k=k: total(f, a, b, c, concat(P, const(0, -k)), zext(sc, 2 * p - k), ez)
        out.append((f"distance {k}", band(fin, eq(d, cs(k))), gen(f, k), R(spec)))
    one = lambda n: const(1, n)
    out.append(("addend dominates", band(fin, slt(cs(hi), d)), gen(f, hi + 20), R(lambda: total(f, a, b, c, one(3 * p + 3), concat(sc, const(0, 2 * p + 3)), sub(ez, const(2 * p + 3, w))))))
    out.append(("product dominates", band(fin, slt(d, cs(lo))), gen(f, lo - 20), R(lambda: total(f, a, b, c, concat(P, const(0, 3)), one(2 * p + 3), sub(ep, const(3, w))))))
    return out


def cases16(f, a, b, c):
    fin = bnot(special(f, a, b, c))
    es = bxor(bxor(fp.sign(f, a), fp.sign(f, b)), fp.sign(f, c))
    ea, eb = [zext(fp.sig_exp(f, x)[1], f.eb + 1) for x in (a, b)]
    m = add(ea, eb)
    out = []
    for l, x in (("sum", bnot(es)), ("difference", es)):
        for lo, hi in ((2, 6), (7, 15), (16, 19), (20, 22), (23, 26), (27, 29), (30, 32), (33, 36), (37, 40), (41, 60)):
            out.append((f"{l}, exponents {lo}..{hi}", band(fin, x, ule(const(lo, 6), m), ule(m, const(hi, 6))), gen(f), lambda r: fp.feq_bits(f, r, fixed(f, a, b, c))))
    return out


WIDE = {}


def widen(ctx, f, g, x):
    """conversion by the standard; to a format of more than twice the precision it is exact"""
    if g.p < 2 * f.p:
        return fp.convert(f, g, x, nanv=ctx.nanv(g))
    sig, e = fp.sig_exp_norm(f, x)
    e = add(sext(e, g.eb), const(g.bias - f.bias, g.eb))
    r = mkwide(f, g, x, concat(e, concat(extract(f.mb - 1, 0, sig), const(0, g.mb - f.mb))))
    r = ite(fp.isnan(f, x), ctx.nanv(g), r)
    WIDE[r.id] = (r, f, x)
    return r


def mkwide(f, g, x, body):
    s = fp.sign(f, x)
    return ite(fp.isinf(f, x), fp.inf(g, s), ite(fp.iszero(f, x), fp.zero(g, s), fp.mkf(g, s, body)))


def wide_product(f, g, x, y, nv):
    """product of two widened values: it has at most 2p bits and is exact in the wide format"""
    (sx, ex), (sy, ey) = fp.sig_exp_norm(f, x), fp.sig_exp_norm(f, y)
    n = 2 * f.p
    P = fp.default_mul(sx, sy, n)
    top = bv2b(extract(n - 1, n - 1, P))
    e = add(add(sext(ex, g.eb), sext(ey, g.eb)), const((g.bias - 2 * f.bias + 1) & mask(g.eb), g.eb))
    e = ite(top, e, sub(e, const(1, g.eb)))
    m = ite(top, extract(n - 2, 0, P), concat(extract(n - 3, 0, P), const(0, 1)))
    s = bxor(fp.sign(f, x), fp.sign(f, y))
    inf, z = bor(fp.isinf(f, x), fp.isinf(f, y)), bor(fp.iszero(f, x), fp.iszero(f, y))
    bad = bor(fp.isnan(f, x), fp.isnan(f, y), band(inf, z))
    return ite(bad, nv, ite(inf, fp.inf(g, s), ite(z, fp.zero(g, s), fp.mkf(g, s, concat(e, concat(m, const(0, g.mb - n + 1)))))))


def product(ctx, f, a, b):
    """multiplication by the standard, in the shape of the specification's product"""
    nv = ctx.nanv(f)
    if a.id in WIDE and b.id in WIDE and WIDE[a.id][1] is WIDE[b.id][1]:
        return wide_product(WIDE[a.id][1], f, WIDE[a.id][2], WIDE[b.id][2], nv)
    for x, y in ((a, b), (b, a)):
        if isc(y) and y.x & mask(f.mb) == 0 and f.bias + f.mb <= y.x >> f.mb < f.expmask:
            return fp.fscale_up(f, x, (y.x >> f.mb) - f.bias, nv)
    pow2 = any(isc(fp.frac(f, x)) and fp.frac(f, x).x == 0 for x in (a, b))
    return fp.fmul(f, a, b, nanv=nv, norm=not pow2)


ONLY = os.environ.get("C20")


def goals(C):
    for f, name in FMTS:
        if ONLY and name not in ONLY.split():
            continue
        kw = dict(ensures=lambda a, b, c, r: TRUE, samples=s_fma(f), sweep=gen(f), hooks={"fmul": product, "fconv": widen},
                  oracle=lambda a, b, c, o, f=f: True if o is None else same(f, o[0], fp.ref_fma(f, a, b, c)),
                  mulabs=[(f.mb, f.mb)] if f is fp.F16 else [(f.mb, f.mb), (f.mb + 1, f.mb + 1)])
        args = [("a", f), ("b", f), ("c", f)]
        C.contract("libm", name, args, requires=lambda a, b, c, f=f: [special(f, a, b, c)], contracts=callee.widen_mul(C) if f is fp.F128 else None,
                   split=lambda a, b, c, f=f: special_cases(f, a, b, c), **kw)
        if f is fp.F128:
            few = [-f.p, 0, f.w - 4, f.w + 42, 2 * f.p]
            C.bounded.append(f"{name}: zeros, infinities and NaN, dominated sums, and exponent distances {few} only (the code is the one proved for all distances at double precision)")

            def among(a, b, c, f=f, few=few):
                d = (lambda P, ep, sc, ez: sub(ez, ep))(*parts(f, a, b, c))
                cs = lambda v: const(v & mask(d.w), d.w)
                return [bnot(special(f, a, b, c)), bor(slt(d, cs(-f.p - 2)), slt(cs(2 * f.p + 2), d), *[eq(d, cs(k)) for k in few])]
            C.contract("libm", name, args, requires=among, contracts=callee.widen_mul(C), split=lambda a, b, c, f=f, few=few: distances(f, a, b, c, few), **kw)
            continue
        C.contract("libm", name, args, requires=lambda a, b, c, f=f: [bnot(special(f, a, b, c))],
                   split=lambda a, b, c, f=f: (cases16 if f is fp.F16 else distances)(f, a, b, c), **kw)
