"""IEEE 754 specification functions.

Every function exists as a circuit over terms (used in postconditions and as the
semantics of native float instructions).  ref_* functions are exact rational
arithmetic on Python integers, used to validate the circuits and as the oracle
when a counterexample is replayed."""
from fractions import Fraction
from .term import *


class Fmt:
    def __init__(self, name, eb, mb):
        self.name, self.eb, self.mb = name, eb, mb
        self.w = 1 + eb + mb
        self.p = mb + 1
        self.bias = (1 << (eb - 1)) - 1
        self.emin = 1 - self.bias          # exponent of the smallest normal
        self.emax = self.bias
        self.expmask = (1 << eb) - 1
        self.inf = self.expmask << mb
        self.qnan = self.inf | 1 << (mb - 1)
        self.signbit = 1 << (self.w - 1)
        self.one = self.bias << mb

    def __repr__(self):
        return self.name


F16 = Fmt("f16", 5, 10)
F32 = Fmt("f32", 8, 23)
F64 = Fmt("f64", 11, 52)
F128 = Fmt("f128", 15, 112)
BYW = {16: F16, 32: F32, 64: F64, 128: F128}
BYN = {f.name: f for f in BYW.values()}


# ---------------------------------------------------------------- circuits
def sign(f, x):
    return bv2b(extract(f.w - 1, f.w - 1, x))


def expf(f, x):
    return extract(f.w - 2, f.mb, x)


def frac(f, x):
    return extract(f.mb - 1, 0, x)


def absb(f, x):
    return extract(f.w - 2, 0, x)


def isnan(f, x):
    return ult(const(f.inf, f.w - 1), absb(f, x))


def isinf(f, x):
    return eq(absb(f, x), const(f.inf, f.w - 1))


def iszero(f, x):
    return eq(absb(f, x), const(0, f.w - 1))


def isfinite(f, x):
    return ult(absb(f, x), const(f.inf, f.w - 1))


def issub(f, x):
    return band(eq(expf(f, x), const(0, f.eb)), ne(frac(f, x), const(0, f.mb)))


def mkf(f, s, rest):
    return concat(b2bv(s), rest)


def inf(f, s):
    return mkf(f, s, const(f.inf, f.w - 1))


def zero(f, s):
    return mkf(f, s, const(0, f.w - 1))


def nan(f):
    return const(f.qnan, f.w)


def fneg(f, x):
    return concat(not_(extract(f.w - 1, f.w - 1, x)), absb(f, x))


def fabs(f, x):
    return zext(absb(f, x), f.w)


def feq_bits(f, a, b):
    """observational equality: same bits, or both NaN"""
    return bor(eq(a, b), band(isnan(f, a), isnan(f, b)))


def sig_exp(f, x):
    """(significand p bits, biased exponent max(1,e) eb bits); value = sig * 2^(be - bias - mb)"""
    e = expf(f, x)
    z = eq(e, const(0, f.eb))
    sig = concat(b2bv(bnot(z)), frac(f, x))
    return sig, ite(z, const(1, f.eb), e)


def sig_exp_norm(f, x):
    """as sig_exp with subnormals normalised: (significand, exponent of eb+2 signed bits)"""
    sig, e = sig_exp(f, x)
    lz = clz(sig)
    ew = f.eb + 2
    z = eq(expf(f, x), const(0, f.eb))
    sig = ite(z, shl(sig, lz), sig)
    return sig, sub(zext(e, ew), ite(z, resize(lz, ew), const(0, ew)))


def sticky_shr(x, s):
    """x >> s with lost bits or-ed into bit 0; s same width as x"""
    w = x.w
    r = lshr(x, s)
    lost = ne(shl(r, s), x)
    big = uge(s, const(w, w)) if s.w >= w.bit_length() else FALSE
    lost = ite(big, ne(x, const(0, w)), lost)
    return or_(r, b2bv(lost, w)) if w > 1 else or_(r, b2bv(lost))


RNE, RTP, RTN, RTZ, RNA = "rne", "rtp", "rtn", "rtz", "rna"


def round_pack(f, s, e, sig, rm=RNE, want=None):
    """value = (-1)^s * sig * 2^e rounded; e signed term of any width, lsb of sig may be sticky
    (needs sig.w >= p + 2 then).  Returns the f.w-bit pattern (zero keeps sign s)."""
    W = sig.w
    if W < f.p + 2:
        k = f.p + 2 - W
        sig = concat(sig, const(0, k))
        W = sig.w
        ew0 = max(e.w, k.bit_length() + 1) + 1
        e = sub(sext(e, ew0), const(k, ew0))
    ew = max(e.w, f.eb + 2, W.bit_length() + 2) + 2
    lz = clz(sig)
    norm = shl(sig, lz)
    # exponent of msb
    E = sub(add(sext(e, ew), const(W - 1, ew)), resize(lz, ew))
    under = slt(E, const(f.emin, ew))
    sh = ite(under, sub(const(f.emin, ew), E), const(0, ew))      # >= 0
    shc = ite(ult(const(W + 1, ew), sh), const(W + 1, ew), sh)
    if ew > W:
        n2 = sticky_shr(norm, trunc(shc, W)) if (W + 1) < (1 << W) else None
    else:
        n2 = sticky_shr(norm, zext(shc, W))
    q = extract(W - 1, W - f.p, n2)                      # p bits
    g = bv2b(extract(W - f.p - 1, W - f.p - 1, n2))
    st = ne(extract(W - f.p - 2, 0, n2), const(0, W - f.p - 1)) if W - f.p - 1 > 0 else FALSE
    lsb = bv2b(extract(0, 0, q))
    inc = _inc(rm, s, g, st, lsb)
    be = ite(under, const(0, ew), add(E, const(f.bias - 1, ew)))   # biased - 1: hidden bit adds one
    pk = add(concat(trunc(be, f.eb + 1), const(0, f.mb)), zext(q, f.w))
    pk = add(pk, b2bv(inc, f.w))
    over = bor(slt(const(f.emax, ew), E), uge(pk, const(f.inf, f.w)))
    maxfin = const(f.inf - 1, f.w - 1)
    ovf = const(f.inf, f.w - 1)
    if rm == RTZ:
        ovf = maxfin
    elif rm == RTP:
        ovf = ite(s, maxfin, ovf)
    elif rm == RTN:
        ovf = ite(s, ovf, maxfin)
    z = eq(sig, const(0, W))
    body = ite(z, const(0, f.w - 1), ite(over, ovf, trunc(pk, f.w - 1)))
    r = mkf(f, s, body)
    if want == "inexact":
        # (result, inexact, underflow-range, overflow)
        inx = band(bnot(z), bor(g, st, over))
        return r, inx, band(bnot(z), under), band(bnot(z), over)
    return r


def _inc(rm, s, g, st, lsb):
    if rm == RNE:
        return band(g, bor(st, lsb))
    if rm == RNA:
        return g
    if rm == RTZ:
        return FALSE
    if rm == RTP:
        return band(bnot(s), bor(g, st))
    if rm == RTN:
        return band(s, bor(g, st))


def fadd(f, a, b, rm=RNE, nanv=None, norm=False):
    """norm: the same sum computed from normalised operands (an equal circuit of different shape)"""
    nanv = nan(f) if nanv is None else nanv
    swap = ult(absb(f, a), absb(f, b))
    x = ite(swap, b, a)
    y = ite(swap, a, b)
    ew = f.eb + 2
    if norm:
        sx, ex = sig_exp_norm(f, x)
        sy, ey = sig_exp_norm(f, y)
    else:
        sx, ex = sig_exp(f, x)
        sy, ey = sig_exp(f, y)
    W = f.p + 4
    X = concat(const(0, 1), concat(sx, const(0, 3)))
    Y = concat(const(0, 1), concat(sy, const(0, 3)))
    d = zext(sub(ex, ey), max(W, ew))
    cap = const(f.p + 3, d.w)
    d = ite(ult(cap, d), cap, d)
    Y = sticky_shr(Y, resize(d, W))
    effsub = bxor(sign(f, a), sign(f, b))
    S = ite(effsub, sub(X, Y), add(X, Y))
    e = sub(zext(ex, ew), const(f.bias + f.mb + 3, ew)) if not norm else sub(sext(ex, ew + 1), const(f.bias + f.mb + 3, ew + 1))
    exactzero = eq(S, const(0, W))
    zs = ite(effsub, boolc(rm == RTN), sign(f, a))
    s = ite(exactzero, zs, sign(f, x))
    fin = round_pack(f, s, e, S, rm)
    inva = bor(isnan(f, a), isnan(f, b), band(isinf(f, a), isinf(f, b), effsub))
    return ite(inva, nanv, ite(isinf(f, a), a, ite(isinf(f, b), b, fin)))


def fsub(f, a, b, rm=RNE, nanv=None, norm=False):
    return fadd(f, a, fneg(f, b), rm, nanv, norm)


def default_mul(x, y, w):
    return mul(zext(x, w), zext(y, w))


def fmul(f, a, b, rm=RNE, mulfn=default_mul, nanv=None, norm=False):
    nanv = nan(f) if nanv is None else nanv
    sa, ea = (sig_exp_norm if norm else sig_exp)(f, a)
    sb, eb = (sig_exp_norm if norm else sig_exp)(f, b)
    ext = sext if norm else zext
    W = 2 * f.p
    P = mulfn(sa, sb, W)
    ew = f.eb + 3
    e = sub(add(ext(ea, ew), ext(eb, ew)), const(2 * (f.bias + f.mb), ew))
    s = bxor(sign(f, a), sign(f, b))
    fin = round_pack(f, s, e, P, rm)
    inva = bor(isnan(f, a), isnan(f, b), band(isinf(f, a), iszero(f, b)), band(iszero(f, a), isinf(f, b)))
    return ite(inva, nanv, ite(bor(isinf(f, a), isinf(f, b)), inf(f, s), fin))


def fscale_up(f, a, k, nanv=None):
    """a * 2^k for a constant k >= mb: exact, or infinite"""
    nanv = nan(f) if nanv is None else nanv
    sig, e = sig_exp_norm(f, a)
    e = add(sext(e, f.eb + 3), const(k, f.eb + 3))
    fin = ite(sle(const(f.expmask, f.eb + 3), e), const(f.inf, f.w - 1), concat(trunc(e, f.eb), extract(f.mb - 1, 0, sig)))
    s = sign(f, a)
    return ite(isnan(f, a), nanv, ite(isinf(f, a), a, ite(iszero(f, a), a, mkf(f, s, fin))))


def ffma(f, a, b, c, mulfn=default_mul, nanv=None):
    nanv = nan(f) if nanv is None else nanv
    sa, ea = sig_exp(f, a)
    sb, eb = sig_exp(f, b)
    sc, ec = sig_exp(f, c)
    P = mulfn(sa, sb, 2 * f.p)
    ew = f.eb + 4
    ep = sub(add(zext(ea, ew), zext(eb, ew)), const(2 * (f.bias + f.mb), ew))   # lsb exponent of the product
    ez = sub(zext(ec, ew), const(f.bias + f.mb, ew))                            # lsb exponent of the addend
    sp = bxor(sign(f, a), sign(f, b))
    sz = sign(f, c)
    # two alignments; each exact up to the sticky bit, chosen so that the sticky side is far below
    p = f.p
    # frame: product at [p+2 .. 3p+1], 3p+5 bits wide; addend placed by d = ez - ep
    d = sub(ez, ep)
    # case hi: addend lsb more than p+2 above product lsb: frame lsb = ez - (2p+2)?  -> product becomes sticky part
    W = 4 * p + 6
    # frame A (d > p+2 + ...): put addend with lsb at 2p+3, product shifted right by d - (2p+3) (sticky) or left
    # unified: base exponent eb = ite(d >= 0 large, ez - (2p+3), ep - (p+3))
    big = sle(const(2 * p + 3, ew), d)
    Pw0 = zext(P, W)
    Zw0 = zext(sc, W)
    # frame 1 (big): base = ez - (2p+3); product >> (d-(2p+3)) sticky; addend << (2p+3)
    k1 = resize(sub(d, const(2 * p + 3, ew)), W) if ew < W else sub(d, const(2 * p + 3, ew))
    k1 = sub(d, const(2 * p + 3, ew))
    k1c = ite(ult(const(2 * p + 2, ew), k1), const(2 * p + 2, ew), k1)
    P1 = sticky_shr(Pw0, resize(k1c, W))
    Z1 = shl(Zw0, const(2 * p + 3, W))
    e1 = sub(ez, const(2 * p + 3, ew))
    # frame 2: base = ep - (p+3); product << (p+3); addend << (d + p + 3) if >= 0 else sticky >>
    P2 = shl(Pw0, const(p + 3, W))
    k2 = add(d, const(p + 3, ew))
    neg2 = slt(k2, const(0, ew))
    kk = ite(neg2, neg(k2), const(0, ew))
    kkc = ite(ult(const(p + 2, ew), kk), const(p + 2, ew), kk)
    Z2 = ite(neg2, sticky_shr(Zw0, resize(kkc, W)), shl(Zw0, resize(k2, W)))
    e2 = sub(ep, const(p + 3, ew))
    PP = ite(big, P1, P2)
    ZZ = ite(big, Z1, Z2)
    e = ite(big, e1, e2)
    effsub = bxor(sp, sz)
    less = ult(PP, ZZ)
    S = ite(effsub, ite(less, sub(ZZ, PP), sub(PP, ZZ)), add(PP, ZZ))
    exactzero = eq(S, const(0, W))
    s = ite(exactzero, band(sp, sz), ite(effsub, ite(less, sz, sp), sp))
    fin = round_pack(f, s, e, S)
    pz = bor(iszero(f, a), iszero(f, b))
    fin = ite(pz, ite(iszero(f, c), zero(f, band(sp, sz)), c), fin)
    pinf = bor(isinf(f, a), isinf(f, b))
    inva = bor(isnan(f, a), isnan(f, b), isnan(f, c), band(isinf(f, a), iszero(f, b)), band(iszero(f, a), isinf(f, b)),
               band(pinf, isinf(f, c), effsub))
    return ite(inva, nanv, ite(pinf, inf(f, sp), ite(isinf(f, c), c, fin)))


def flt(f, a, b):
    """a < b (false if unordered)"""
    un = bor(isnan(f, a), isnan(f, b))
    bz = band(iszero(f, a), iszero(f, b))
    sa, sb = sign(f, a), sign(f, b)
    A, B = absb(f, a), absb(f, b)
    lt = bite(sa, bite(sb, ult(B, A), TRUE), bite(sb, FALSE, ult(A, B)))
    return band(bnot(un), bnot(bz), lt)


def feq(f, a, b):
    un = bor(isnan(f, a), isnan(f, b))
    bz = band(iszero(f, a), iszero(f, b))
    return band(bnot(un), bor(bz, eq(a, b)))


def fle(f, a, b):
    return bor(flt(f, a, b), feq(f, a, b))


def funo(f, a, b):
    return bor(isnan(f, a), isnan(f, b))


def convert(f, g, x, rm=RNE, nanv=None):
    """float f -> float g"""
    nanv = nan(g) if nanv is None else nanv
    sig, e = sig_exp(f, x)
    ew = max(f.eb, g.eb) + 3
    ee = sub(zext(e, ew), const(f.bias + f.mb, ew))
    s = sign(f, x)
    fin = round_pack(g, s, ee, sig, rm)
    return ite(isnan(f, x), nanv, ite(isinf(f, x), inf(g, s), fin))


def from_int(f, i, signed, rm=RNE):
    w = i.w
    s = slt(i, const(0, w)) if signed else FALSE
    m = ite(s, neg(i), i) if signed else i
    r = round_pack(f, s, const(0, 3), m, rm)
    return ite(eq(i, const(0, w)), const(0, f.w), r)


def to_int_sat(f, x, w, signed):
    sig, e = sig_exp(f, x)
    s = sign(f, x)
    ew = max(f.eb + 2, w.bit_length() + 2, f.p.bit_length() + 2)
    k = sub(zext(e, ew), const(f.bias + f.mb, ew))           # value = sig*2^k
    W = w + f.p + 1
    sg = zext(sig, W)
    negk = slt(k, const(0, ew))
    nk = neg(k)
    capr = const(f.p, ew)
    nk = ite(ult(capr, nk), capr, nk)
    capl = const(w + 1, ew)
    kl = ite(slt(capl, k), capl, k)
    m = ite(negk, lshr(sg, resize(nk, W)), shl(sg, resize(kl, W)))
    toobig = band(bnot(negk), slt(const(w, ew), k), ne(sig, const(0, f.p)))
    if signed:
        hi = (1 << (w - 1)) - 1
        lo = 1 << (w - 1)
        ovp = bor(toobig, ult(const(hi, W), m))
        ovn = bor(toobig, ult(const(lo, W), m))
        v = trunc(m, w)
        r = ite(s, ite(ovn, const(lo, w), neg(v)), ite(ovp, const(hi, w), v))
    else:
        hi = mask(w)
        ovp = bor(toobig, ult(const(hi, W), m))
        r = ite(s, const(0, w), ite(ovp, const(hi, w), trunc(m, w)))
    if signed:
        rinf = ite(s, const(lo, w), const(hi, w))
    else:
        rinf = ite(s, const(0, w), const(hi, w))
    return ite(isnan(f, x), const(0, w), ite(isinf(f, x), rinf, r))


def round_int(f, x, rm, nanv=None):
    """round to integral value"""
    nanv = nan(f) if nanv is None else nanv
    s = sign(f, x)
    e = expf(f, x)
    sig, _ = sig_exp(f, x)
    ew = f.eb + 2
    E = sub(zext(e, ew), const(f.bias, ew))                  # unbiased
    small = slt(E, const(0, ew))                             # |x| < 1
    bigE = sge(E, const(f.mb, ew))
    # |x| < 1: 0 or 1
    half = const((f.bias - 1) << f.mb, f.w - 1)
    A = absb(f, x)
    nz = ne(A, const(0, f.w - 1))
    g = uge(A, half)
    st = band(nz, ne(A, half))
    inc0 = _inc(rm, s, band(g), bite(g, ne(A, half), nz), FALSE)
    one = const(f.bias << f.mb, f.w - 1)
    r0 = mkf(f, s, ite(inc0, one, const(0, f.w - 1)))
    # 0 <= E < mb: drop mb - E fraction bits
    k = zext(trunc(sub(const(f.mb, ew), E), f.eb), f.w) if f.eb < f.w else None
    Aw = zext(A, f.w)
    q = lshr(Aw, k)
    fr = sub(Aw, shl(q, k))
    hb = shl(const(1, f.w), sub(k, const(1, f.w)))
    gg = uge(fr, hb)
    stt = bite(gg, ne(fr, hb), ne(fr, const(0, f.w)))
    # the packed encoding's bit k is the integer lsb except when it is the hidden bit (k == mb)
    lsb = bor(bv2b(extract(0, 0, q)), FALSE)
    lsb = bite(eq(k, const(f.mb, f.w)), TRUE, lsb)
    inc = _inc(rm, s, gg, stt, lsb)
    r1 = mkf(f, s, trunc(shl(add(q, b2bv(inc, f.w)), k), f.w - 1))
    return ite(isnan(f, x), nanv, ite(bigE, x, ite(small, r0, r1)))


# ---------------------------------------------------------------- exact reference on ints
def dec(f, b):
    """-> ('nan',) | ('inf', s) | ('fin', s, Fraction)"""
    s = b >> (f.w - 1)
    e = b >> f.mb & f.expmask
    m = b & mask(f.mb)
    if e == f.expmask:
        return ("nan",) if m else ("inf", s)
    if e == 0:
        v = Fraction(m) * Fraction(2) ** (f.emin - f.mb)
    else:
        v = Fraction(m | 1 << f.mb) * Fraction(2) ** (e - f.bias - f.mb)
    return ("fin", s, v)


def val(f, b):
    d = dec(f, b)
    assert d[0] == "fin"
    return -d[2] if d[1] else d[2]


def ilog2(v):
    """floor(log2(v)) for a positive Fraction"""
    n, d = v.numerator, v.denominator
    e = n.bit_length() - d.bit_length()
    if e >= 0:
        return e if n >= d << e else e - 1
    return e if n << -e >= d else e - 1


def rnd(f, v, s0=0, rm=RNE):
    """round a Fraction to bits; zero results keep sign s0 if v == 0"""
    if v == 0:
        return s0 << (f.w - 1)
    s = 1 if v < 0 else 0
    v = abs(v)
    e = max(ilog2(v), f.emin)
    q = v / Fraction(2) ** (e - f.mb)
    n = q.numerator // q.denominator
    r = q - n
    if rm == RNE:
        up = r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1)
    elif rm == RNA:
        up = r >= Fraction(1, 2)
    elif rm == RTZ:
        up = False
    elif rm == RTP:
        up = r > 0 and not s
    else:
        up = r > 0 and s
    n += bool(up)
    if n >> f.p:
        n >>= 1
        e += 1
    if e > f.emax:
        if rm == RTZ or (rm == RTP and s) or (rm == RTN and not s):
            return s << (f.w - 1) | (f.inf - 1)
        return s << (f.w - 1) | f.inf
    if n >> f.mb == 0:
        return s << (f.w - 1) | n
    return s << (f.w - 1) | (e + f.bias) << f.mb | (n & mask(f.mb))


def ref_add(f, a, b):
    x, y = dec(f, a), dec(f, b)
    if x[0] == "nan" or y[0] == "nan":
        return f.qnan
    if x[0] == "inf":
        return f.qnan if y[0] == "inf" and x[1] != y[1] else a
    if y[0] == "inf":
        return b
    v = val(f, a) + val(f, b)
    return rnd(f, v, x[1] & y[1])


def ref_mul(f, a, b):
    x, y = dec(f, a), dec(f, b)
    if x[0] == "nan" or y[0] == "nan":
        return f.qnan
    s = (a ^ b) >> (f.w - 1)
    if x[0] == "inf" or y[0] == "inf":
        o = y if x[0] == "inf" else x
        if o[0] == "fin" and o[2] == 0:
            return f.qnan
        return s << (f.w - 1) | f.inf
    return rnd(f, val(f, a) * val(f, b), s)


def ref_div(f, a, b):
    x, y = dec(f, a), dec(f, b)
    if x[0] == "nan" or y[0] == "nan":
        return f.qnan
    s = (a ^ b) >> (f.w - 1)
    if x[0] == "inf":
        return f.qnan if y[0] == "inf" else s << (f.w - 1) | f.inf
    if y[0] == "inf":
        return s << (f.w - 1)
    if y[2] == 0:
        return f.qnan if x[2] == 0 else s << (f.w - 1) | f.inf
    return rnd(f, val(f, a) / val(f, b), s)


def ref_fma(f, a, b, c):
    x, y, z = dec(f, a), dec(f, b), dec(f, c)
    if "nan" in (x[0], y[0], z[0]):
        return f.qnan
    s = (a ^ b) >> (f.w - 1)
    if x[0] == "inf" or y[0] == "inf":
        o = y if x[0] == "inf" else x
        if o[0] == "fin" and o[2] == 0:
            return f.qnan
        if z[0] == "inf" and z[1] != s:
            return f.qnan
        return s << (f.w - 1) | f.inf
    if z[0] == "inf":
        return c
    v = val(f, a) * val(f, b) + val(f, c)
    return rnd(f, v, s & z[1])


def isqrt_round(f, v):
    """correctly rounded sqrt of positive Fraction"""
    from math import isqrt
    # scale so that the integer root has p+2 bits or more
    e = ilog2(v)
    k = 2 * (f.p + 3) - e
    if k & 1:
        k += 1
    n = v * Fraction(2) ** k
    N = n.numerator // n.denominator
    r = isqrt(N)
    exact = n.denominator == 1 and r * r == N
    x = Fraction(2 * r + (0 if exact else 1)) / 2 / Fraction(2) ** (k // 2)
    return rnd(f, x)


def ref_sqrt(f, a):
    x = dec(f, a)
    if x[0] == "nan":
        return f.qnan
    if x[0] == "inf":
        return f.qnan if x[1] else a
    if x[2] == 0:
        return a
    if x[1]:
        return f.qnan
    return isqrt_round(f, x[2])


def ref_from_int(f, v):
    return rnd(f, Fraction(v))


def ref_conv(f, g, a):
    x = dec(f, a)
    if x[0] == "nan":
        return g.qnan
    if x[0] == "inf":
        return x[1] << (g.w - 1) | g.inf
    return rnd(g, val(f, a), x[1])


def ref_to_int(f, a, w, signed):
    x = dec(f, a)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
    if x[0] == "nan":
        return 0
    if x[0] == "inf":
        return (lo if x[1] else hi) & mask(w)
    v = val(f, a)
    t = abs(v).numerator // abs(v).denominator
    t = -t if v < 0 else t
    return min(max(t, lo), hi) & mask(w)


def ref_round_int(f, a, rm):
    x = dec(f, a)
    if x[0] == "nan":
        return f.qnan
    if x[0] == "inf":
        return a
    v = abs(val(f, a))
    n = v.numerator // v.denominator
    r = v - n
    s = x[1]
    h = Fraction(1, 2)
    up = {RNE: r > h or (r == h and n & 1), RNA: r >= h, RTZ: False, RTP: r > 0 and not s, RTN: r > 0 and s}[rm]
    n += bool(up)
    return rnd(f, Fraction(-n if s else n), s)


def same(f, a, b):
    isn = lambda v: (v & mask(f.w - 1)) > f.inf
    return a == b or (isn(a) and isn(b))
