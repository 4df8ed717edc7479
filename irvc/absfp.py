"""Native floating-point operations known only by contract.

Each operation is an uninterpreted function of the magnitudes of its operands, with the sign
behaviour IEEE 754 gives it in round to nearest, NaN operands giving some NaN, sums with a zero and
sums that cancel being exact, and a bound on the exponent of the result.  The real operations meet
this contract whatever else they return, so what is proved from it holds of the code."""
from .term import *
from . import fp

TRUST = "native floating-point operations meet the contracts of irvc/absfp.py (sign, zero, NaN and exponent bounds of IEEE 754 round-to-nearest operations; NaN bits a function of the operands)"


def flip(f, s, a):
    return ite(s, xor(a, const(f.signbit, f.w)), a)


def ex(f, a, w):
    return zext(fp.expf(f, a), w)


def msb(f, a):
    return extract(f.w - 1, f.w - 1, a)


MAGIC = {f.name: (f.bias + f.mb) << f.mb | 1 << (f.mb - 1) for f in (fp.F16, fp.F32, fp.F64, fp.F128)}


class Abs:
    """hooks for symex.Ctx; facts about the results in self.axioms"""

    def __init__(self):
        self.axioms = {}
        self.ops = {}
        self.shifted = {}       # t + 1.5 * 2^mb -> t
        self.floors = {}        # -floor(t) -> t

    def hooks(self):
        return {"fadd": self.add, "fsub": lambda c, f, a, b: self.add(c, f, a, xor(b, const(f.signbit, f.w))), "fmul": self.mul,
                "fdiv": self.div, "sqrt": self.sqrt, "fconv": self.conv, "fma": self.fma}

    def res(self, name, f, w, args, bound=None, unless=FALSE):
        """the uninterpreted result, no NaN; bound(u): a fact about it unless the operation is invalid"""
        u = uf(f"{name}.{f.name}", w, *args)
        if u not in self.axioms:
            self.ops[f"{name}.{f.name}"] = self.ops.get(f"{name}.{f.name}", 0) + 1
            self.axioms[u] = band(ule(extract(f.w - 2, 0, u), const(f.inf, f.w - 1)), bor(unless, bound(u)) if bound else TRUE)
        return u

    def nan(self, name, f, isn, r, *args):
        """r, or some NaN where an operand is one or the operation is invalid"""
        bits = uf(f"nan.{name}.{f.name}", f.mb, *args)
        n = concat(extract(f.mb - 1, f.mb - 1, bits), concat(const((f.expmask << 1) | 1, f.eb + 1), extract(f.mb - 2, 0, bits)))
        return ite(isn, n, r)

    @staticmethod
    def le(f, u, lim, ww):
        """exponent field of u <= lim (signed); below 0 the result is at most the least normal"""
        return sle(ex(f, u, ww), ite(slt(lim, const(0, ww)), const(0, ww), lim))

    def mul(self, c, f, a, b):
        for x, y in ((a, b), (b, a)):
            if isc(y):
                k = (y.x >> f.mb & f.expmask) - f.bias
                if y.x & ((1 << f.mb) - 1) == 0 and -f.bias < k <= f.bias:
                    return self.scale(f, x, y, k, a, b)
        return self._mul(f, a, b)

    def scale(self, f, x, y, k, a, b):
        """the factor y is 2^k: exact where the result is in the normal range"""
        s = xor(msb(f, x), msb(f, y))
        if k >= f.mb:
            return self.nan("mul", f, fp.isnan(f, x), concat(s, fp.absb(f, fp.fscale_up(f, x, k))), a, b)
        e = add(ex(f, x, f.eb + 2), const(k, f.eb + 2))
        ok = band(ne(fp.expf(f, x), const(0, f.eb)), fp.isfinite(f, x), slt(const(0, f.eb + 2), e), slt(e, const(f.expmask, f.eb + 2)))
        return ite(ok, concat(s, concat(trunc(e, f.eb), fp.frac(f, x))), self._mul(f, a, b))

    def _mul(self, f, a, b):
        ww = f.eb + 3
        ea, eb = ex(f, a, ww), ex(f, b, ww)
        ia, ib, za, zb = fp.isinf(f, a), fp.isinf(f, b), fp.iszero(f, a), fp.iszero(f, b)
        one = const(f.one, f.w - 1)
        A, B = fp.absb(f, a), fp.absb(f, b)
        bad = bor(fp.funo(f, a, b), band(ia, zb), band(za, ib))
        u = self.res("mul", f, f.w - 1, (A, B), lambda u: band(
            bor(ia, ib, self.le(f, zext(u, f.w), sub(add(ea, eb), const(f.bias - 2, ww)), ww)),
            # a factor of at most 1 does not increase, one of at least 1 does not decrease the magnitude
            implies(ule(A, one), ule(u, B)), implies(ule(B, one), ule(u, A)),
            implies(ule(one, A), ule(B, u)), implies(ule(one, B), ule(A, u))), bad)
        return self.nan("mul", f, bad, concat(xor(msb(f, a), msb(f, b)), u), a, b)

    def div(self, c, f, a, b):
        ww = f.eb + 3
        ea, eb = ex(f, a, ww), ex(f, b, ww)
        ia, ib, za, zb = fp.isinf(f, a), fp.isinf(f, b), fp.iszero(f, a), fp.iszero(f, b)
        A, B = fp.absb(f, a), fp.absb(f, b)
        one = const(f.one, f.w - 1)
        bad = bor(fp.funo(f, a, b), band(ia, ib), band(za, zb))
        u = self.res("div", f, f.w - 1, (A, B), lambda u: band(
            bor(ia, eq(eb, const(0, ww)), self.le(f, zext(u, f.w), add(sub(ea, eb), const(f.bias + 1, ww)), ww)),
            implies(ule(A, B), ule(u, one)), implies(ule(B, A), ule(one, u)),
            implies(ule(one, B), ule(u, A)), implies(ule(B, one), ule(A, u))), bad)
        return self.nan("div", f, bad, concat(xor(msb(f, a), msb(f, b)), u), a, b)

    def add(self, c, f, a, b):
        r = self._add(c, f, a, b)
        for x, y in ((a, b), (b, a)):
            if isc(y) and y.x == MAGIC[f.name]:
                self.shifted[r] = x
            if isc(y) and y.x == MAGIC[f.name] ^ f.signbit and x in self.shifted:
                # (t + 1.5 * 2^mb) - 1.5 * 2^mb is t rounded to an integer
                t = self.shifted[x]
                small = ult(fp.expf(f, t), const(f.bias + f.mb - 1, f.eb))
                ww = f.eb + 3
                u = self.res("rint", f, f.w - 1, (fp.absb(f, t),), lambda u: self.le(f, zext(u, f.w), add(ex(f, t, ww), const(1, ww)), ww))
                v = ite(fp.iszero(f, zext(u, f.w)), const(0, f.w), concat(msb(f, t), u))
                r = ite(small, v, r)
        return r

    def _add(self, c, f, a, b):
        ww = f.eb + 3
        s = fp.sign(f, a)
        ea, eb = ex(f, a, ww), ex(f, b, ww)
        top = ite(ult(ea, eb), eb, ea)
        ia, ib = fp.isinf(f, a), fp.isinf(f, b)
        A, B, d = fp.absb(f, a), fp.absb(f, b), flip(f, s, b)
        more, less = ite(ult(A, B), B, A), ite(ult(A, B), A, B)

        def fact(u):
            m, neg = fp.absb(f, u), fp.sign(f, d)
            return band(bor(ia, ib, self.le(f, u, add(top, const(2, ww)), ww)),
                        # the sign is that of the larger operand; like signs do not decrease, unlike signs do not increase
                        biff(fp.sign(f, u), band(neg, ult(A, B))),
                        ite(neg, ule(m, more), ule(more, m)))
        za, zb = fp.iszero(f, a), fp.iszero(f, b)
        opp = eq(a, xor(b, const(f.signbit, f.w)))
        bad = bor(fp.funo(f, a, b), band(opp, ia))
        u = self.res("add", f, f.w, (A, d), fact, bad)
        if self.floors.get(b) is a:     # t - floor(t)
            v = self.res("fraction", f, f.w - 1, (a,), lambda v: ule(v, const(f.one, f.w - 1)), bad)
            u = ite(s, xor(zext(v, f.w), const(f.signbit, f.w)), zext(v, f.w))
        r = ite(opp, const(0, f.w), flip(f, s, u))
        r = ite(zb, ite(za, concat(and_(msb(f, a), msb(f, b)), const(0, f.w - 1)), a), ite(za, b, r))
        return self.nan("add", f, bad, r, a, b)

    def sqrt(self, c, f, a):
        ww = f.eb + 3
        ea = ex(f, a, ww)
        u = self.res("sqrt", f, f.w - 1, (a,), lambda u: bor(fp.isinf(f, a), self.le(f, zext(u, f.w), add(lshr(add(ea, const(f.bias, ww)), const(1, ww)), const(1, ww)), ww)))
        r = ite(fp.iszero(f, a), a, zext(u, f.w))
        return self.nan("sqrt", f, bor(fp.isnan(f, a), band(fp.sign(f, a), bnot(fp.iszero(f, a)))), r, a)

    def conv(self, c, f, g, a):
        if g.w > f.w:
            m = fp.convert(f, g, fp.fabs(f, a), nanv=const(g.qnan, g.w))
            return self.nan("conv." + f.name, g, fp.isnan(f, a), concat(msb(f, a), fp.absb(g, m)), a)
        ww = f.eb + 3
        ea = ex(f, a, ww)
        u = self.res("conv." + f.name, g, g.w - 1, (fp.absb(f, a),), lambda u: bor(fp.isinf(f, a), self.le(g, zext(u, g.w), add(ea, const(g.bias - f.bias + 1, ww)), ww)))
        return self.nan("conv." + f.name, g, fp.isnan(f, a), concat(msb(f, a), u), a)

    def fma(self, c, f, a, b, d):
        u = uf(f"fma.{f.name}", f.w, a, b, d)
        return self.nan("fma", f, bor(fp.funo(f, a, b), fp.isnan(f, d)), u, a, b, d)

    def floor(self, ctx, name, args, i, g, mem):
        """contract of floor (proved by the check of the rounding functions)"""
        a = args[0]
        f = fp.BYW[a.w]
        u = fp.round_int(f, a, fp.RTN, nanv=const(f.qnan, f.w))
        r = self.nan("floor", f, fp.isnan(f, a), u, a)
        self.floors[xor(r, const(f.signbit, f.w))] = a
        return r, mem, g

    def facts(self, terms):
        """what is known of the operations that occur in the terms"""
        out, todo = {}, list(terms)
        while todo:
            new = [t for t in postorder(todo) if t in self.axioms and t not in out]
            for t in new:
                out[t] = self.axioms[t]
            todo = [self.axioms[t] for t in new]
        return list(out.values())


def ext(hi, lo, t, memo):
    """bits of t, choices pushed to the top"""
    if t.op == "ite":
        k = (t.id, hi, lo)
        if k not in memo:
            memo[k] = ite(t.args[0], ext(hi, lo, t.args[1], memo), ext(hi, lo, t.args[2], memo))
        return memo[k]
    if t.op == "extract":
        return ext(hi + t.x[1], lo + t.x[1], t.args[0], memo)
    if t.op == "concat":
        h, l = t.args
        if hi < l.w:
            return ext(hi, lo, l, memo)
        if lo >= l.w:
            return ext(hi - l.w, lo - l.w, h, memo)
        return concat(ext(hi - l.w, 0, h, memo), ext(l.w - 1, lo, l, memo))
    return extract(hi, lo, t)


class Sym(Abs):
    """Operations in the form sign and magnitude, for relating executions on x and -x: where no
    operation is invalid, an operation whose operands change sign all together gives the same
    magnitude term in both executions, and a sign that is the same sum of conditions plus one."""

    def __init__(self):
        super().__init__()
        self.memo = {}
        self.views = {}
        self.packed = {}        # (sign, magnitude) of a result -> its sign as a sum of conditions, valid unless it is zero

    @staticmethod
    def plus(p, q):
        return (p[0] ^ q[0], p[1] ^ q[1])

    @staticmethod
    def term(p):
        r = FALSE
        for t in sorted(p[1], key=lambda t: t.id):
            r = bxor(r, t)
        return bnot(r) if p[0] else r

    def view(self, f, t):
        """magnitude, sign where nonzero (a constant and a set of conditions, to be summed), sign"""
        if t not in self.views:
            self.views[t] = self._view(f, t)
        return self.views[t]

    def _view(self, f, t):
        if t.op == "ite":
            c, p, q = t.args
            (mp, sp, zp), (mq, sq, zq) = self.view(f, p), self.view(f, q)
            k = band(c, self.term(self.plus(sp, sq)))
            return ite(c, mp, mq), self.plus(sq, (0, frozenset([k])) if not isc(k) else (k.x, frozenset())), bite(c, zp, zq)
        if t.op == "xor" and isc(t.args[1]) and t.args[1].x == f.signbit:
            m, s, z = self.view(f, t.args[0])
            return m, self.plus(s, (1, frozenset())), bnot(z)
        m, z = ext(f.w - 2, 0, t, self.memo), bv2b(ext(f.w - 1, f.w - 1, t, self.memo))
        if isc(z):
            return m, (z.x, frozenset()), z
        if (z, m) in self.packed:
            return m, self.packed[z, m], z
        if (bnot(z), m) in self.packed:
            return m, self.plus(self.packed[bnot(z), m], (1, frozenset())), z
        return m, (0, frozenset([z])), z

    def pack(self, f, m, s, z):
        """value with magnitude m, sign s, or z if zero"""
        sg = bite(eq(m, const(0, f.w - 1)), z, self.term(s))
        if isc(sg):
            return concat(const(sg.x, 1), m)
        self.packed.setdefault((sg, m), s)
        return concat(b2bv(sg), m)

    def mul(self, c, f, a, b):
        A, sa, za = self.view(f, a)
        B, sb, zb = self.view(f, b)
        ww = f.eb + 3
        ea, eb = (zext(extract(f.w - 2, f.mb, x), ww) for x in (A, B))
        e = sub(add(ea, eb), const(f.bias, ww))
        u = self.res("mul", f, f.w - 1, (A, B), lambda u: band(
            bor(eq(A, const(f.inf, f.w - 1)), eq(B, const(f.inf, f.w - 1)), self.le(f, zext(u, f.w), add(e, const(2, ww)), ww)),
            implies(band(ne(ea, const(0, ww)), ne(eb, const(0, ww)), sle(const(1, ww), e), sle(e, const(f.expmask, ww))),
                    ule(e, zext(extract(f.w - 2, f.mb, u), ww)))))
        return self.pack(f, u, self.plus(sa, sb), bxor(za, zb))

    def div(self, c, f, a, b):
        A, sa, za = self.view(f, a)
        B, sb, zb = self.view(f, b)
        s = self.plus(sa, sb)
        k = band(eq(B, const(0, f.w - 1)), bxor(zb, self.term(sb)))     # a zero divisor: the sign of that zero
        if not isc(k):
            s = self.plus(s, (0, frozenset([k])))
        return self.pack(f, uf(f"div.{f.name}", f.w - 1, A, B), s, bxor(za, zb))

    def _add(self, c, f, a, b):
        A, sa, za = self.view(f, a)
        B, sb, zb = self.view(f, b)
        z = const(0, f.w - 1)
        nA, nB = eq(A, z), eq(B, z)
        d = self.plus(sa, sb)
        D = concat(b2bv(band(bnot(nB), self.term(d))), B)
        neg = bv2b(extract(f.w - 1, f.w - 1, D))
        u = uf(f"add.{f.name}", f.w, A, D)
        ww = f.eb + 2
        ea, eb = (zext(extract(f.w - 2, f.mb, x), ww) for x in (A, B))
        if isc(B):      # one operand too small to matter
            u = ite(ult(add(eb, const(f.mb + 2, ww)), ea), zext(A, f.w), u)
        R = ite(nB, concat(const(0, 1), A), ite(nA, D, ite(band(neg, eq(A, B)), const(0, f.w), u)))
        m = ext(f.w - 2, 0, R, self.memo)
        k = bv2b(ext(f.w - 1, f.w - 1, R, self.memo))
        return self.pack(f, m, self.plus(sa, (0, frozenset([k])) if not isc(k) else (k.x, frozenset())), band(nA, nB, za, zb))

    def add(self, c, f, a, b):
        for x, y in ((a, b), (b, a)):
            if isc(y) and y.x == MAGIC[f.name] ^ f.signbit and x in self.shifted:
                T, st, zt = self.view(f, self.shifted[x])
                small = ult(extract(f.w - 2, f.mb, T), const(f.bias + f.mb - 1, f.eb))
                ww = f.eb + 3
                u = self.res("rint", f, f.w - 1, (T,), lambda u: self.le(f, zext(u, f.w), add(zext(extract(f.w - 2, f.mb, T), ww), const(1, ww)), ww))
                return ite(small, self.pack(f, u, st, FALSE), self._add(c, f, a, b))
        r = self._add(c, f, a, b)
        for x, y in ((a, b), (b, a)):
            if isc(y) and y.x == MAGIC[f.name]:
                self.shifted[r] = x
        return r

    def sqrt(self, c, f, a):
        A, sa, za = self.view(f, a)
        return self.pack(f, uf(f"sqrt.{f.name}", f.w - 1, A), (0, frozenset()), za)

    def conv(self, c, f, g, a):
        A, sa, za = self.view(f, a)
        if g.w > f.w:
            return self.pack(g, fp.absb(g, fp.convert(f, g, zext(A, f.w), nanv=const(g.qnan, g.w))), sa, za)
        return self.pack(g, uf(f"conv.{f.name}.{g.name}", g.w - 1, A), sa, za)

    def fma(self, c, f, a, b, d):
        A, sa, za = self.view(f, a)
        B, sb, zb = self.view(f, b)
        E, se, ze = self.view(f, d)
        z = const(0, f.w - 1)
        p = self.plus(sa, sb)
        D = concat(b2bv(band(bnot(eq(E, z)), self.term(self.plus(p, se)))), E)
        u = uf(f"fma.{f.name}", f.w, A, B, D)
        return self.pack(f, ext(f.w - 2, 0, u, self.memo), self.plus(p, (0, frozenset([fp.sign(f, u)]))), FALSE)
