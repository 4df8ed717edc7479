"""Integer back end: bit-vector obligations as linear integer arithmetic over exact values.

Every term is mapped to its unsigned integer value, an integer polynomial over atoms
(inputs, floors of divisions by powers of two, carries, quotients).  Products of atoms are
opaque monomials, tied to their factors only by facts valid for all integers (bounds,
McCormick inequalities), so `unsat` is sound; a model is a counterexample only if the
original terms evaluate to true under it."""
import math
import itertools, os, time
import z3
from .term import *
from . import term as tm
from .solve import Result


class Atom:
    __slots__ = ("i", "lo", "hi", "z")


ONE = ()
MAXW = 400      # exponents beyond it are not those of powers: no shift is that wide
DEBUG = os.environ.get("VERIF_INTDBG")


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def pconst(v):
    return {ONE: v} if v else {}


RULES = {}      # monomials (of different atoms) equal to a known constant


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            for m0, e in RULES.items():
                while all(i in k for i in m0):
                    k = list(k)
                    for i in m0:
                        k.remove(i)
                    k = tuple(k)
                    d = d * e
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def isk(p):
    return not p or (len(p) == 1 and ONE in p)


def key(p):
    return frozenset(p.items())


def strip(t):
    while t.op == "zext":
        t = t.args[0]
    return t


class IntB:
    def __init__(self, mccormick=True, exact=(), derived=None, named=None, tight=None):
        self.tight = tight or {}    # bounds shown for quotients
        self.bounded = {}
        self.named = named or {}    # variables equal to a term
        self.exact = exact          # left shifts known not to lose bits, floors known to be zero, known carries
        self.derived = derived or {}    # exponents that are sums of others
        self.cone = set()           # terms that shift amounts are computed from
        self.clzs = []
        self.base = []              # bounds of terms
        self.cands = {}             # for some of the candidates, the inequalities to refute
        self.facts = []             # polynomials known non-negative: (polynomial, condition or None)
        self.shifted = []
        self.later = []
        self.floors = {}
        self.shls = {}
        self.divs = []
        self.polys = []
        self.polys_s = []
        self.atoms = []
        self.cons = []
        self.V, self.B, self.P = {}, {}, {}
        self.mono = {}
        self.qs = {}
        self.prods = {}
        self.pows = {}
        self.inputs = {}
        self.pairs = set()
        self.mcc = mccormick

    # ---------------------------------------------------------- atoms
    def atom(self, name, lo, hi):
        a = Atom()
        a.i, a.lo, a.hi = len(self.atoms), lo, hi
        a.z = z3.Int(f"{name}_{a.i}")
        self.atoms.append(a)
        self.cons.append(a.z >= lo)
        if hi is not None:
            self.cons.append(a.z <= hi)
        return {(a.i,): 1}

    def mrange(self, m):
        lo = hi = 1
        for i in m:
            a = self.atoms[i]
            c = [lo * a.lo, lo * a.hi, hi * a.lo, hi * a.hi]
            lo, hi = min(c), max(c)
        return lo, hi

    def prange(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = self.mrange(m)
            lo += c * l if c > 0 else c * h
            hi += c * h if c > 0 else c * l
        return lo, hi

    def mz(self, m):
        if len(m) == 1:
            return self.atoms[m[0]].z
        z = self.mono.get(m)
        if z is None:
            z = z3.Int("m" + "_".join(map(str, m)))
            self.mono[m] = z
            lo, hi = self.mrange(m)
            self.cons += [z >= lo, z <= hi]
            for i in set(m):
                self.cons.append(z3.Implies(self.atoms[i].z == 0, z == 0))
                rest = list(m)
                rest.remove(i)
                self.cons.append(z3.Implies(self.atoms[i].z == 1, z == self.mz(tuple(rest))))
        return z

    def z(self, p):
        s = [z3.IntVal(c) if m == ONE else (self.mz(m) if c == 1 else z3.IntVal(c) * self.mz(m)) for m, c in p.items()]
        return z3.Sum(s) if len(s) > 1 else (s[0] if s else z3.IntVal(0))

    def bound(self, p, lo, hi):
        if not isk(p):
            self.cons += [self.z(p) >= lo, self.z(p) <= hi]
            self.base += [padd(p, pconst(lo), -1), padd(pconst(hi), p, -1)]

    def product(self, p, q, r1, r2):
        """value of p*q, with ranges r1, r2 known for p and q"""
        if isk(p):
            return pscale(q, p.get(ONE, 0))
        if isk(q):
            return pscale(p, q.get(ONE, 0))
        k = frozenset([key(p), key(q)])
        if k not in self.prods:
            e = pmul(p, q)
            self.prods[k] = e
            self.bound(e, r1[0] * r2[0], r1[1] * r2[1])
            if self.mcc:
                self.ge0(padd(p, pconst(r1[0]), -1), padd(q, pconst(r2[0]), -1))
                self.ge0(padd(pconst(r1[1]), p, -1), padd(q, pconst(r2[0]), -1))
                self.ge0(padd(p, pconst(r1[0]), -1), padd(pconst(r2[1]), q, -1))
                self.ge0(padd(pconst(r1[1]), p, -1), padd(pconst(r2[1]), q, -1))
        return self.prods[k]

    def prodterm(self, x, y):
        """value of x*y, distributed over if-then-else"""
        x, y = strip(x), strip(y)
        for u, v in ((x, y), (y, x)):
            if u.op == "ite" and not isk(self.V[u.id]) and not isk(self.V[v.id]):
                k = ("prod", u.id, v.id)
                if k not in self.P:
                    c, s, t = u.args
                    p, q = self.prodterm(s, v), self.prodterm(t, v)
                    e = pmul(self.V[u.id], self.V[v.id])
                    z = self.B[c.id]
                    self.cons += [z3.Implies(z, self.z(padd(e, p, -1)) == 0), z3.Implies(z3.Not(z), self.z(padd(e, q, -1)) == 0)]
                    self.P[k] = e
                return self.P[k]
            if u.op == "concat" and not isk(self.V[v.id]):
                self.prodterm(u.args[0], v)     # for the bounds of the partial products
                self.prodterm(u.args[1], v)
        return self.product(self.V[x.id], self.V[y.id], urange(x), urange(y))

    def ge0(self, p, q):
        """lemma: p >= 0 and q >= 0 imply p*q >= 0 (p, q known non-negative)"""
        e = pmul(p, q)
        if not isk(e):
            self.cons.append(self.z(e) >= 0)

    def mono_lemma(self, p, q):
        """lemma: (p >= 0 and q >= 0) implies p*q >= 0, for arbitrary p, q"""
        self.cons.append(z3.Implies(z3.And(self.z(p) >= 0, self.z(q) >= 0), self.z(pmul(p, q)) >= 0))

    # ---------------------------------------------------------- floors
    def Q(self, x, k):
        """floor(value(x) / 2^k)"""
        lo, hi = urange(x)
        if k == 0:
            return self.V[x.id]
        if hi >> k == lo >> k:
            return pconst(hi >> k)
        op = x.op
        if op == "zext":
            return self.Q(x.args[0], k)
        if op == "concat":
            h, l = x.args
            if k >= l.w:
                return self.Q(h, k - l.w)
            return padd(pscale(self.V[h.id], 1 << (l.w - k)), self.Q(l, k))
        if op == "extract":
            H, L = x.x
            y = x.args[0]
            return padd(self.Q(y, L + k), pscale(self.Q(y, H + 1), 1 << (H + 1 - L - k)), -1)
        if op == "add" and urange(x.args[0])[1] + urange(x.args[1])[1] < 1 << x.w:
            for u, v in (x.args, x.args[::-1]):
                if urange(u)[1] < 1 << min(k, tm._tz(v)):
                    return self.Q(v, k)
        if all(c % (1 << k) == 0 for c in self.V[x.id].values()):
            return {m: c >> k for m, c in self.V[x.id].items()}
        d = self.qs.setdefault(x.id, {0: self.V[x.id]})
        q = d.get(k)
        if q is None and (x.id, k) in self.exact:
            d[k] = q = {}
            self.bound(self.V[x.id], 0, (1 << k) - 1)
        if q is None:
            q = self.atom("q", lo >> k, hi >> k)
            for k2, q2 in list(d.items()):
                a, b, e = (q, q2, k2 - k) if k2 > k else (q2, q, k - k2)
                # a = 2^e b + r
                self.bound(padd(a, pscale(b, 1 << e), -1), 0, (1 << e) - 1)
            d[k] = q
            if q:
                if x.op in ("lshr", "udiv"):
                    self.polys.append(padd(self.V[x.id], pconst(1 << k), -1))
                e = padd(self.V[x.id], pscale(q, 1 << k), -1)
                self.facts += [(e, None), (padd(pconst(mask(k)), e, -1), None)]
            if lo >> k == 0 and (hi >> k == 1 or x.id in self.cone) and self.small(x) or x.op in ("lshr", "udiv"):
                self.shls[x.id, k] = self.z(q) == 0
            if lo >> k == 0:
                self.cands[x.id, k] = [padd(q, pconst(1), -1)]
        return q

    def small(self, x):
        return x.op == "clz" or x.id in self.cone

    def pow2(self, s):
        """polynomial for 2^value(s)"""
        p = self.V[s.id]
        if isk(p):
            return pconst(1 << p.get(ONE, 0)), (1 << p.get(ONE, 0),) * 2
        lo, hi = urange(s)
        hi = min(hi, MAXW)
        k = key(p)
        if k not in self.pows:
            d = self.derived.get(s.id)
            az = None
            if d and all(x.id in self.V for x in d[0]):
                a = pconst(1 << d[1])
                for x in d[0]:
                    a = pmul(a, self.pow2(x)[0])
                self.bound(a, 1 << lo, 1 << hi)
            else:
                a = self.atom("pow", 1 << lo, 1 << hi)
            z, az = self.z(p), self.z(a)
            for p2, a2, _ in self.pows.values():
                sm = padd(p, p2)
                if isk(sm) and 0 <= sm.get(ONE, 0) < 1024:
                    self.cons.append(self.z(pmul(a, a2)) == 1 << sm.get(ONE, 0))
                    if len(a) == len(a2) == 1:
                        (m, c), (m2, c2) = *a.items(), *a2.items()
                        m = tuple(sorted(m + m2))
                        if len(set(m)) == len(m) and (1 << sm.get(ONE, 0)) % (c * c2) == 0 and not any(set(x) <= set(m) for x in RULES):
                            RULES[m] = (1 << sm.get(ONE, 0)) // (c * c2)
                df = padd(p, p2, -1)
                if isk(df) and abs(df.get(ONE, 0)) < 1024:
                    d = df.get(ONE, 0)
                    e = padd(pscale(a, 1 << max(0, -d)), pscale(a2, 1 << max(0, d)), -1)
                    if not isk(e):
                        self.cons.append(self.z(e) == 0)
                else:
                    z2, az2 = self.z(p2), self.z(a2)
                    self.cons += [(z < z2) == (2 * az <= az2), (z2 < z) == (2 * az2 <= az), (z == z2) == (az == az2)]
            for v in range(lo, hi + 1):
                self.cons.append((z == v) == (az == 1 << v))
            self.pows[k] = (p, a, s)
        return self.pows[k][1], (1 << lo, 1 << hi)

    def relations(self):
        """exponents as sums of other exponents and a constant"""
        ps = list(self.pows.values())
        rep, out = {}, {}
        for p, a, s in sorted(ps, key=lambda x: x[0].get(ONE, 0)):
            base = dict(p)
            c = base.pop(ONE, 0)
            k = key(base)
            if k in rep and c - rep[k][2] < 1024 and s.id not in self.derived and s.id not in {x.id for xs, _ in self.derived.values() for x in xs}:
                out[s.id] = ([rep[k][1]], c - rep[k][2])
            elif k not in rep:
                rep[k] = (base, s, c)
        used = {x.id for xs, _ in self.derived.values() for x in xs}
        for k, (base, s, c) in rep.items():
            if s.id in used or s.id in self.derived:
                continue
            for k1, (b1, s1, c1) in rep.items():
                k2 = key(padd(base, b1, -1))
                if k1 == k or k2 not in rep or k2 == k or s1.id in out or s1.id in self.derived:
                    continue
                b2, s2, c2 = rep[k2]
                if s2.id in out or s2.id in self.derived or not 0 <= c - c1 - c2 < 1024:
                    continue
                out[s.id] = ([s1, s2], c - c1 - c2)
                used |= {s1.id, s2.id}
                break
        return out

    def floor(self, x, S, rs, lo, hi, tag):
        """floor(value(x) / S) for S a power of two given as a polynomial"""
        k = (x.id, key(S))
        if k not in self.floors:
            if (tag, "floor") in self.exact:
                A = self.multiples(self.V[x.id], S)
                self.bound(A, lo, hi)
                self.floors[k] = A
                return A
            q = self.quotient("shr", (tag,), lo, hi)
            self.floors[k] = q
            e = self.product(q, S, (lo, hi), rs)
            d = padd(self.V[x.id], e, -1)
            self.cons += [self.z(d) >= 0, self.z(padd(d, S, -1)) <= -1]
            self.facts += [(d, None), (padd(padd(S, d, -1), pconst(1), -1), None)]
            A = self.multiples(self.V[x.id], S)
            if A:
                # uniqueness of division: value(x) = S*A + B
                D = padd(q, A, -1)
                self.polys_s.append((D, S))
                self.shls[tag, "floor"] = self.z(D) == 0
        return self.floors[k]

    def quotient(self, name, k, lo, hi):
        l, h = self.tight.get(k, (lo, hi))
        lo, hi = max(lo, l), min(hi, h)
        q = self.atom(name, lo, hi)
        self.bounded[k] = (q, lo, hi)
        if lo > 0:
            self.facts.append((padd(q, pconst(lo), -1), None))
        if k in self.tight:
            self.facts.append((padd(pconst(hi), q, -1), None))
        return q

    def tighten(self, lp):
        """bounds by powers of two for the quotients"""
        out = {}
        for k, (q, lo, hi) in self.bounded.items():
            l, h = lo, hi
            a, b = lo.bit_length() - 1, hi.bit_length() - 1     # 2^a <= q known if a >= 0; 2^b might be
            while a < b:
                m = (a + b + 1) // 2
                if lp.refuted([padd(pconst((1 << m) - 1), q, -1)], 1000):
                    a = m
                else:
                    b = m - 1
            if a >= 0 and 1 << a > lo:
                l = 1 << a
            a, b = -1, hi.bit_length()      # q < 2^b known; q < 2^a not
            while a + 1 < b:
                m = (a + b) // 2
                if lp.refuted([padd(q, pconst(1 << m), -1)], 1000):
                    b = m
                else:
                    a = m
            h = min(hi, (1 << b) - 1)
            if (l, h) != (lo, hi):
                out[k] = (l, h)
        return out

    def multiples(self, p, S):
        """A with p = S*A + B, by monomials"""
        A = {}
        if len(S) == 1:
            (m, c), = S.items()
            for n, cc in p.items():
                r = list(n)
                if cc % c == 0 and all(self.take(r, i) for i in m):
                    A[tuple(r)] = cc // c
        return A

    def take(self, r, i):
        if i in r:
            r.remove(i)
            return True
        return False

    def ispow(self, p):
        """the power of two (polynomial, range) equal to p"""
        k = key(p)
        for q, a, s in self.pows.values():
            if key(a) == k:
                lo, hi = urange(s)
                return a, (1 << lo, 1 << min(hi, 300))
        return None

    def multiple(self, p, S):
        (m, c), = S.items()
        for n, cc in p.items():
            r = list(n)
            if cc % c or not all(self.take(r, i) for i in m):
                return False
        return True

    def sval(self, x):
        return padd(self.V[x.id], pscale(self.Q(x, x.w - 1), 1 << x.w), -1)

    def parts(self, x):
        """known splits of x into non-negative parts"""
        d = self.qs.get(x.id, {})
        ks = sorted(d)
        r = []
        for k in ks:
            r.append(d[k])
            if k:
                r.append(padd(d[0], pscale(d[k], 1 << k), -1))
        return r or [self.V[x.id]]

    def saturate(self):
        """products of non-negative parts of the factors are non-negative; products of positive parts are positive"""
        done = set()
        for x, y in self.pairs:
            for p in self.parts(x):
                for q in self.parts(y):
                    if isk(p) or isk(q):
                        continue
                    k = frozenset([key(p), key(q)])
                    if k in done:
                        continue
                    done.add(k)
                    e = pmul(p, q)
                    ez = self.z(e)
                    self.cons.append(ez >= 0)
                    self.cons.append(z3.Implies(z3.And(self.z(p) >= 1, self.z(q) >= 1), self.z(padd(padd(padd(e, p, -1), q, -1), pconst(1))) >= 0))

        for x, S in self.shifted:
            for k, q in list(self.qs.get(x.id, {}).items()):
                if k and not isk(S):
                    rem = padd(self.V[x.id], pscale(q, 1 << k), -1)
                    for p in (rem, padd(pconst(mask(k)), rem, -1), q):
                        e = pmul(p, S)
                        if not isk(e):
                            self.cons.append(self.z(e) >= 0)

    def scale(self):
        """a comparison of D with 0 gives the same comparison of D*S, for S a power of two,
        or S a divisor and D about its quotient"""
        def lem(D, S, pos):
            e = self.z(pmul(D, S))
            d, s = self.z(D), self.z(S)
            self.cons += [z3.Implies(z3.And(d >= 1, *pos), e >= s), z3.Implies(z3.And(d <= -1, *pos), e <= -s), z3.Implies(d == 0, e == 0)]
        ps = {key(D): D for D in self.polys if not isk(D) and len(D) <= 12 and max(map(len, D)) <= 2}.values()
        done = set()
        for p, S, _ in list(self.pows.values()):
            if len(S) != 1:
                continue
            (m, c), = S.items()
            S = {m: 1}
            if m == ONE or m in done:
                continue
            done.add(m)
            for D in ps:
                if not any(set(m) & set(k) for k in D):
                    lem(D, S, [])
        for D, S in self.polys_s:
            lem(D, S, [])
        for i, (x, cx) in enumerate(self.clzs):
            for y, cy in self.clzs[:i]:
                if x.w == y.w:
                    X, Y = self.V[x.id], self.V[y.id]
                    d = self.z(padd(X, Y, -1))
                    e = self.z(padd(cx, cy, -1))
                    self.cons += [z3.Implies(d >= 0, e <= 0), z3.Implies(d <= 0, e >= 0)]
        for (m,), d in ((next(iter(q)), d) for q, d in self.divs if q):
            if isk(d):
                continue
            for D in ps:
                if (m,) in D:
                    lem(D, d, [self.z(d) >= 1])

    def deepen(self, ls, s):
        """products of known inequalities with factors of the monomials in use"""
        F = [p for p, c in self.facts if c is None or self.known(s, c)]
        E = []
        for l in ls:
            t = l.args[0] if l.op == "bnot" else l
            if t.op not in ("ult", "eq") or not t.args[0].w:
                continue
            d = padd(self.V[t.args[1].id], self.V[t.args[0].id], -1)
            if t.op == "ult":
                d = padd(d, pconst(1), -1) if t is l else pscale(d, -1)
                F.append(d)
            elif t is l:
                F += [d, pscale(d, -1)]
            elif any(x.op == "const" and x.x == 0 for x in t.args):
                F.append(padd(d if self.prange(d)[0] >= 0 else pscale(d, -1), pconst(1), -1))
        # comparisons of exponents as comparisons of powers
        ps = list(self.pows.values())
        for p in F:
            for p1, a1, _ in ps:
                e = padd(p, p1)
                if isk(e) and 0 <= e.get(ONE, 0) < 1024:
                    E.append(padd(pconst(1 << e.get(ONE, 0)), a1, -1))
                e = padd(p, p1, -1)
                if isk(e) and 0 <= -e.get(ONE, 0) < 1024:
                    E.append(padd(a1, pconst(1 << -e.get(ONE, 0)), -1))
                for p2, a2, _ in ps:
                    # p = c + p2 - p1 >= 0
                    e = padd(padd(p, p1), p2, -1)
                    if a1 is not a2 and isk(e) and abs(e.get(ONE, 0)) < 1024:
                        c = e.get(ONE, 0)
                        E.append(padd(pscale(a2, 1 << max(0, c)), pscale(a1, 1 << max(0, -c)), -1))
        # a bound on a number of leading zeros as a bound of the number itself
        for p in list(F):
            for x, r in self.clzs:
                X = self.V[x.id]
                e = padd(p, r, -1)
                if isk(e) and 0 <= -e.get(ONE, 0) <= x.w:
                    E.append(padd(pconst(mask(x.w + e.get(ONE, 0))), X, -1))
                e = padd(p, r)
                if isk(e) and 0 <= e.get(ONE, 0) < x.w:
                    E.append(padd(X, pconst(1 << (x.w - 1 - e.get(ONE, 0))), -1))
        F += E + [padd(a, pconst(1), -1) for _, a, _ in ps]
        F = {key(p): p for p in F if not isk(p) and len(p) <= 12}
        ms = {m for m in self.mono if len(m) <= 4}
        fac = set()
        for m in ms:
            for k in range(1, len(m)):
                fac |= {tuple(c) for c in itertools.combinations(m, k)}
        fac = {m for m in fac if len(m) <= 2 and all(self.atoms[i].lo >= 0 for i in m)}
        have = {m for m in self.mono if len(m) > 1}
        cand = []
        for p in F.values():
            for m in sorted(fac):
                e = pmul(p, {m: 1})
                if not isk(e) and max(map(len, e)) <= 5:
                    cand.append((e, {k for k in e if len(k) > 1}))
        lp = LP(self)
        for p in list(F.values()) + self.base:
            lp.ge(p, False)
        goals = []
        for l in ls:
            if l.op == "bnot" and l.args[0].op == "eq" and l.args[0].args[0].w:
                x, y = l.args[0].args
                d = padd(self.V[x.id], self.V[y.id], -1)
                goals.append([padd(d, pconst(1), -1), padd(pscale(d, -1), pconst(1), -1)])
        n = 0
        for lim in (1, 1, 2, 3):
            rest, new = [], set()
            for e, big in cand:
                if len(big - have) <= lim and (len(big) == 1 or big & have):
                    lp.ge(e)
                    n += 1
                    new |= big
                else:
                    rest.append((e, big))
            have |= new
            cand = rest
            yield n, lp, goals

    def known(self, s, c):
        s.set("timeout", 300)
        s.push()
        s.add(z3.Not(c))
        r = s.check()
        s.pop()
        return r == z3.unsat

    # ---------------------------------------------------------- translation
    def flush(self):
        """facts about leading zeros: they come after the powers that theirs are products of"""
        while self.later:
            t, x, r = self.later.pop(0)
            w = t.w
            S, rs = self.pow2(t)
            e = self.product(x, S, urange(t.args[0]), rs)
            for p2, a2, _ in list(self.pows.values()):
                sm = padd(self.V[t.id], p2)
                k = sm.get(ONE, 0)
                if isk(sm) and 0 <= k < 1024:
                    # S * a2 = 2^k: the bounds of x * S as bounds of x
                    if k <= w:
                        self.polys.append(padd(pscale(a2, 1 << (w - k)), x, -1))
                        self.polys_s.append((self.polys[-1], S))
                    self.polys.append(padd(pscale(x, 1 << max(0, k - w + 1)), pscale(a2, 1 << max(0, w - 1 - k)), -1))
                    self.polys_s.append((self.polys[-1], S))
            x = self.z(x)
            self.cons.append(z3.If(x == 0, self.z(r) == w, z3.And(self.z(e) >= 1 << (w - 1), self.z(e) < 1 << w, self.z(r) < w)))
            self.cons.append((x >= 1 << (w - 1)) == (self.z(r) == 0))
            self.facts += [(padd(e, pconst(1 << (w - 1)), -1), x >= 1), (padd(pconst(mask(w)), e, -1), None)]

    def prepare(self, roots):
        """shift amounts first: the carries in their computation matter, and powers that others are products of"""
        for t in postorder(roots):
            if t.op in ("shl", "lshr"):
                st = [t.args[1]]
                while st:
                    x = st.pop()
                    x = self.named.get(x.id, x)
                    if x.w and x.id not in self.cone and x.op not in ("shl", "lshr", "mul", "udiv", "urem", "clz", "var", "const"):
                        self.cone.add(x.id)
                        st += x.args
        bs = sorted({x.id: x for xs, _ in self.derived.values() for x in xs}.values(), key=lambda x: x.id)
        self.run(bs)
        for x in bs:
            if x.id not in self.derived:
                self.pow2(x)
        for x in bs:
            self.pow2(x)

    def run(self, roots):
        for t in postorder(roots):
            if t.w == 0:
                if t.id not in self.B:
                    self.B[t.id] = self.bool(t)
            elif t.id not in self.V:
                self.V[t.id] = self.value(t)

    def wrap(self, p, w, klo, khi, t):
        """p mod 2^w where floor(p / 2^w) lies in [klo, khi]"""
        lo, hi = self.prange(p)
        klo, khi = max(klo, lo >> w), min(khi, hi >> w)
        if klo < khi:
            for k in range(klo, min(khi, klo + 2) + 1):
                if (t.id, "carry", k) in self.exact:
                    klo = khi = k
        if klo == khi:
            r = padd(p, pconst(klo << w), -1)
        else:
            c = self.atom("c", klo, khi)
            if khi == klo + 1 and t.id in self.cone:
                neg = t.op == "add" and any(x.op == "const" and x.x >> (w - 1) for x in t.args)
                for k in (khi, klo) if neg or t.op == "sub" else (klo, khi):
                    self.shls[t.id, "carry", k] = self.z(c) == k
            elif t.op == "mul" and klo == 0:
                self.shls[t.id, "carry", 0] = self.z(c) == 0
            if klo <= 0 <= khi:
                self.cands[t.id, "carry", 0] = ([padd(p, pconst(1 << w), -1)] if khi > 0 else []) + ([padd(pconst(-1), p, -1)] if klo < 0 else [])
            r = padd(p, pscale(c, 1 << w), -1)
        self.bound(r, *urange(t))
        return r

    def value(self, t):
        op, w, a = t.op, t.w, t.args
        lo, hi = urange(t)
        if op == "const":
            return pconst(t.x)
        if op == "var":
            if t.id in self.named:
                b = self.named[t.id]
                if b.id not in self.V:
                    self.run([b])
                self.bound(self.V[b.id], lo, hi)
                return self.V[b.id]
            p = self.atom(str(t.x), lo, hi)
            self.inputs[t] = p
            return p
        if lo == hi:
            return pconst(lo)
        v = [self.V[x.id] if x.w else None for x in a]
        if op == "zext":
            return v[0]
        if op == "sext":
            return padd(v[0], pscale(self.Q(a[0], a[0].w - 1), (1 << w) - (1 << a[0].w)))
        if op == "concat":
            return padd(pscale(v[0], 1 << a[1].w), v[1])
        if op == "extract":
            h, l = t.x
            r = padd(self.Q(a[0], l), pscale(self.Q(a[0], h + 1), 1 << w) if h + 1 < a[0].w else {}, -1)
            self.bound(r, lo, hi)
            return r
        if op == "not":
            return padd(pconst(mask(w)), v[0], -1)
        if op == "add":
            (l1, h1), (l2, h2) = urange(a[0]), urange(a[1])
            return self.wrap(padd(v[0], v[1]), w, (l1 + l2) >> w, (h1 + h2) >> w, t)
        if op == "sub":
            (l1, h1), (l2, h2) = urange(a[0]), urange(a[1])
            if l1 < h2:
                self.polys.append(padd(v[0], v[1], -1))
            return self.wrap(padd(v[0], v[1], -1), w, (l1 - h2) >> w, (h1 - l2) >> w, t)
        if op == "mul":
            r1, r2 = urange(a[0]), urange(a[1])
            self.pairs.add((strip(a[0]), strip(a[1])))
            p = self.prodterm(a[0], a[1])
            return self.wrap(p, w, (r1[0] * r2[0]) >> w, (r1[1] * r2[1]) >> w, t)
        if op == "ite":
            if key(v[1]) == key(v[2]):
                return v[1]
            c = self.B[a[0].id]
            r = self.atom("i", lo, hi)
            self.cons += [z3.Implies(c, self.z(padd(r, v[1], -1)) == 0), z3.Implies(z3.Not(c), self.z(padd(r, v[2], -1)) == 0)]
            return r
        if op in ("and", "or", "xor"):
            for x, y in (a, a[::-1]):
                if urange(x)[1] < 1 << tm._tz(y):
                    return {} if op == "and" else padd(v[0], v[1])
            if op == "and":
                for x, y in (a, a[::-1]):
                    if x.op == "sext" and x.args[0].w == 1 or x.op == "ite" and all(z.op == "const" and z.x in (0, mask(w)) for z in x.args[1:]):
                        s = self.V[x.id]
                        on = self.z(s) == mask(w)
                        r = self.atom("m", lo, hi)
                        self.cons.append(z3.If(on, self.z(padd(r, self.V[y.id], -1)) == 0, self.z(r) == 0))
                        self.cons.append(z3.Or(on, self.z(s) == 0))
                        return r
                    S = self.ispow(padd(self.V[y.id], pconst(1)))
                    if S:
                        q = self.floor(x, S[0], S[1], 0, urange(x)[1], t.id)
                        r = padd(self.V[x.id], pmul(q, S[0]), -1)
                        self.bound(r, lo, hi)
                        return r
            if (t.id, "disjoint") in self.exact or any(k[:2] == (t.id, "disjoint") for k in self.exact if isinstance(k, tuple)):
                r = {} if op == "and" else padd(v[0], v[1])
                self.bound(r, lo, hi)
                return r
            n = self.atom("and", 0, min(urange(a[0])[1], urange(a[1])[1]))
            self.bound(padd(v[0], n, -1), 0, mask(w))
            self.bound(padd(v[1], n, -1), 0, mask(w))
            self.bound(padd(padd(v[0], v[1]), n, -1), 0, mask(w))
            for m in [ONE] + sorted({m for _, S, _ in self.pows.values() if len(S) == 1 for m in S if m}):
                for i in (0, 1):
                    # a multiple of a power of two, the other one below that power
                    c = 0
                    for k in v[i].values():
                        c |= k
                    S = {m: c & -c}
                    if (c & -c > 1 or c and m) and self.multiple(v[i], S):
                        d = padd(v[1 - i], S, -1)
                        self.polys.append(d)
                        self.cons.append(z3.Implies(self.z(d) <= -1, self.z(n) == 0))
                        self.shls[t.id, "disjoint"] = self.z(n) == 0
                        self.cands[t.id, "disjoint", i, m] = [d]
            if op == "and":
                return n
            return padd(padd(v[0], v[1]), n, -1 if op == "or" else -2)
        if op in ("udiv", "urem"):
            if op == "udiv":
                self.pairs.add((t, strip(a[1])))
            k = ("div", a[0].id, a[1].id)
            if k not in self.P:
                n, d = v
                pos = (a[0].id, a[1].id, "pos")     # the quotient is not zero
                q = self.quotient("quo", (a[0].id, a[1].id), int(pos in self.exact), mask(w))
                if pos not in self.exact:
                    self.cands[pos] = [padd(padd(d, n, -1), pconst(1), -1), pscale(d, -1)]
                r = self.atom("rem", 0, urange(a[0])[1])
                e = self.product(q, d, (0, mask(w)), urange(a[1]))
                dz = self.z(d)
                self.cons.append(z3.If(dz == 0, z3.And(self.z(q) == mask(w), self.z(padd(r, n, -1)) == 0),
                                       z3.And(self.z(padd(padd(e, r), n, -1)) == 0, self.z(padd(r, d, -1)) <= -1, self.z(padd(q, n, -1)) <= 0)))
                self.P[k] = (q, r)
                self.divs.append((q, d))
                self.facts += [(r, dz >= 1), (padd(padd(d, r, -1), pconst(1), -1), dz >= 1), (padd(padd(n, e, -1), r, -1), dz >= 1), (padd(padd(e, r), n, -1), dz >= 1)]
            return self.P[k][0 if op == "udiv" else 1]
        if op in ("shl", "lshr"):
            assert w <= MAXW
            if urange(a[1])[0] >= w:
                return pconst(0)
            S, rs = self.pow2(a[1])
            amt = self.z(v[1])
            if op == "shl":
                e = self.product(v[0], S, urange(a[0]), rs)
                self.shifted.append((strip(a[0]), S))
                if a[0].op == "concat":
                    for x in a[0].args:
                        self.product(self.V[x.id], S, urange(x), rs)
                r1 = urange(a[0])
                if t.id in self.exact or r1[1] * rs[1] < 1 << w and urange(a[1])[1] < w:
                    self.bound(e, lo, hi)
                    return e
                k = self.atom("k", 0, (r1[1] * rs[1]) >> w)
                r = self.atom("shl", lo, hi)
                self.shls[t.id] = z3.And(amt < w, self.z(k) == 0)
                self.cands[t.id] = [padd(v[1], pconst(w), -1), padd(e, pconst(1 << w), -1)]
                self.cons.append(z3.If(amt >= w, self.z(r) == 0, self.z(padd(padd(e, pscale(k, 1 << w), -1), r, -1)) == 0))
                return r
            if rs[1] >> w == 0 or rs[0] < 1 << w and t.id in self.exact:
                return self.floor(a[0], S, rs, lo, hi, t.id)
            q = self.atom("shr", lo, hi)
            e = self.product(q, S, (lo, hi), rs)
            d = padd(v[0], e, -1)
            self.shls[t.id] = amt < w
            self.cons.append(z3.If(amt >= w, self.z(q) == 0, z3.And(self.z(d) >= 0, self.z(padd(d, S, -1)) <= -1)))
            return q
        if op == "clz":
            r = self.atom("clz", lo, hi)
            self.V[t.id] = r
            self.clzs.append((a[0], r))
            self.later.append((t, v[0], r))
            return r
        return self.atom(op, lo, hi)

    def bool(self, t):
        op, a = t.op, t.args
        if op == "const":
            return z3.BoolVal(bool(t.x))
        if op == "var":
            b = z3.Bool(f"b_{t.x}_{t.id}")
            self.inputs[t] = b
            return b
        if op == "bnot":
            return z3.Not(self.B[a[0].id])
        if op == "band":
            return z3.And([self.B[x.id] for x in a])
        if op == "bor":
            return z3.Or([self.B[x.id] for x in a])
        if op == "biff":
            return self.B[a[0].id] == self.B[a[1].id]
        if op == "bite":
            return z3.If(*[self.B[x.id] for x in a])
        if op == "eq" and a[0].w > 0:
            self.polys.append(padd(self.V[a[0].id], self.V[a[1].id], -1))
            return self.z(padd(self.V[a[0].id], self.V[a[1].id], -1)) == 0
        if op == "ult":
            self.polys.append(padd(self.V[a[0].id], self.V[a[1].id], -1))
            return self.z(padd(self.V[a[0].id], self.V[a[1].id], -1)) <= -1
        if op == "slt":
            return self.z(padd(self.sval(a[0]), self.sval(a[1]), -1)) <= -1
        return z3.Bool(f"u_{op}_{t.id}")


class LP:
    """linear inequalities over monomials as rational unknowns"""
    def __init__(self, ib):
        self.ib, self.v, self.ps = ib, {}, []
        self.s = z3.SolverFor("QF_LRA")

    def ge(self, p, keep=True):
        if keep:
            self.ps.append(p)
        self.s.add(self.z(self.cut(p)) >= 0)

    def cut(self, p):
        """p >= 0 divided by the common factor of its coefficients, the constant rounded"""
        g = math.gcd(*[c for m, c in p.items() if m != ONE])
        return {m: c // g for m, c in p.items()} if g > 1 else p

    def into(self, s):
        """the same inequalities over integers"""
        n = len(self.ib.cons)
        while self.ps:
            s.add(self.ib.z(self.ps.pop()) >= 0)
        for c in self.ib.cons[n:]:
            s.add(c)

    def z(self, p):
        t = []
        for m, c in p.items():
            if m == ONE:
                t.append(z3.RealVal(c))
                continue
            x = self.v.get(m)
            if x is None:
                lo, hi = self.ib.mrange(m)
                x = self.v[m] = z3.Real("r" + "_".join(map(str, m)))
                if len(m) == 1 and hi - lo <= 2:
                    self.s.add(z3.Or([x == k for k in range(lo, hi + 1)]))
                self.s.add(x >= lo, x <= hi)
            t.append(z3.RealVal(c) * x)
        return z3.Sum(t) if t else z3.RealVal(0)

    def check(self, ms, p=None):
        self.s.set("timeout", max(1, int(ms)))
        if p is None:
            return self.s.check()
        self.s.push()
        self.s.add(self.z(self.cut(p)) >= 0)
        r = self.s.check()
        self.s.pop()
        return r

    def refuted(self, ps, ms):
        """none of the inequalities can hold"""
        for p in ps:
            self.z(p)
        return all(self.check(ms, p) == z3.unsat for p in ps)


def names(ls):
    """variables that some conjunct equates with a term not depending on them"""
    out = {}
    for l in ls:
        if l.op == "eq" and l.args[0].w:
            for x, y in (l.args, l.args[::-1]):
                v = strip(x)
                if v.op == "var" and v.id not in out and y.op != "const":
                    dep, st = set(), [y]
                    while st:
                        for u in variables(st.pop()):
                            if u.id not in dep:
                                dep.add(u.id)
                                if u.id in out:
                                    st.append(out[u.id])
                    if v.id not in dep:
                        out[v.id] = y
                        break
    return out


def choice(ls):
    """condition of an if-then-else that a shift amount depends on"""
    seen = set()
    for t in postorder(ls):
        if t.op in ("shl", "lshr"):
            st = [t.args[1]]
            while st:
                x = st.pop()
                if x.id in seen or not x.w or x.op in ("shl", "lshr", "mul", "udiv", "urem", "clz", "var", "const"):
                    continue
                seen.add(x.id)
                if x.op == "ite":
                    return x.args[0]
                st += x.args
    return None


def branch(ls):
    """condition to split on: that of the outermost if-then-else, else a disjunct of a path condition"""
    for l in sorted(ls, key=lambda x: -x.id):
        if l.op == "bor":
            continue
        st, seen = [l], set()
        while st:
            nxt = []
            for x in st:
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op in ("ite", "bite"):
                    c = x.args[0]
                    while c.op in ("bnot", "bor"):
                        c = c.args[0] if c.op == "bnot" else min(c.args, key=lambda y: y.id)
                    return c
                nxt += x.args
            st = nxt
    n = {}
    for l in ls:
        if l.op == "bor":
            for x in l.args:
                x = x.args[0] if x.op == "bnot" else x
                n[x] = n.get(x, 0) + 1
    return max(n, key=lambda x: (n[x], -x.id)) if n else None


def leaves(asserts, cap):
    """the conjunction as a list of at most cap conjunctions, split as sat would do it"""
    done, todo = [], [list(asserts)]
    while todo and len(done) + len(todo) < cap:
        a = todo.pop(0)
        f = propagate(band(*a))
        if f is FALSE:
            continue
        ls = lits(f)
        c = choice(ls)
        if c is None:
            c = branch(ls)
        if c is None:
            done.append(a)
        else:
            todo += [a + [c], a + [bnot(c)]]
    return done + todo


def sat(asserts, timeout=600, lemmas=None, mccormick=True, depth=24):
    """satisfiability of the conjunction; lemmas(ib) may add instances of valid facts"""
    t0 = time.time()
    f = propagate(band(*asserts))
    if f is FALSE:
        return Result("unsat", secs=time.time() - t0, info="syntactic", backend="simplifier")
    ls = lits(f)
    def split(c):
        rs = []
        if DEBUG:
            print(" " * (24 - depth), "split", str(c)[:150])
        for x in (c, bnot(c)):
            r = sat(asserts + [x], max(1, timeout - (time.time() - t0)), lemmas, mccormick, depth - 1)
            if r.st != "unsat":
                r.secs = time.time() - t0
                return r
            rs.append(r)
        return Result("unsat", secs=time.time() - t0, info="; ".join(r.info for r in rs)[:300], backend="z3-lia")
    c = choice(ls) if depth else None
    if c is not None:
        return split(c)
    br = branch(ls) if depth else None
    exact, derived = set(), {}
    named = names(ls)
    tries = 200
    tight = {}
    while True:
        more = {}
        RULES.clear()
        ib = IntB(mccormick, exact, derived, named, tight)
        ib.prepare(ls)
        ib.run(ls)
        ib.flush()
        ib.saturate()
        ib.scale()
        if lemmas:
            lemmas(ib)
        s = z3.SolverFor("QF_LIA")
        goals = [ib.B[x.id] for x in ls]
        for c in ib.cons + goals:
            s.add(c)
        new = set()
        if ib.shls:
            s.set("timeout", 1000 if br is None else 300)
            t1 = time.time()
            q = s.check()
            if DEBUG:
                print("first", q, f"{time.time() - t1:.2f}")
            if q == z3.unsat:
                return Result("unsat", secs=time.time() - t0, info=f"atoms {len(ib.atoms)} monomials {len(ib.mono)} constraints {len(ib.cons)}", backend="z3-lia")
            if br is not None:
                return split(br)
        def probe(tries):
            for k, c in ib.shls.items():
                if isinstance(k, tuple) and len(k) == 3 and any((k[0], k[1], j) in new for j in (k[2] - 1, k[2] + 1)):
                    continue
                s.set("timeout", tries)
                s.push()
                s.add(z3.Not(c))
                t1 = time.time()
                q = s.check()
                if DEBUG:
                    print("try", k, q, f"{time.time() - t1:.2f}")
                if q == z3.unsat:
                    new.add(k)
                s.pop()
        probe(tries)
        rel = ib.relations()
        rel = {k: v for k, v in rel.items() if k not in derived}
        if not new and not rel:
            if not ib.shls or tries >= 2000:
                s.set("timeout", max(1, int((timeout - (time.time() - t0)) * 1000)))
                r = s.check()
                m = s.model() if r == z3.sat else None
                if m is not None and ib.mono and (not depth or br is None):
                    for n, lp, goals in ib.deepen(ls, s):
                        left = lambda: max(1, int(min(timeout / 4, timeout - (time.time() - t0)) * 1000))
                        t1 = time.time()
                        if lp.check(left()) == z3.unsat or any(lp.refuted(ps, left()) for ps in goals):
                            r = z3.unsat
                        if DEBUG:
                            print("deepen", n, "products", len(lp.v), "monomials", r, f"{time.time() - t1:.2f}")
                        if r != z3.unsat and n < 400:
                            lp.into(s)
                            s.set("timeout", left())
                            t1 = time.time()
                            if s.check() == z3.unsat:
                                r = z3.unsat
                            if DEBUG:
                                print("deepen, integers", r, f"{time.time() - t1:.2f}")
                        if r == z3.unsat:
                            break
                        for k, ps in ib.cands.items():
                            t1 = time.time()
                            if lp.refuted(ps, 2000):
                                new.add(k)
                            if DEBUG:
                                print("try", k, k in new, f"{time.time() - t1:.2f}")
                        if not new:
                            t1 = time.time()
                            more = ib.tighten(lp)
                            if DEBUG:
                                print("tighten", more, f"{time.time() - t1:.2f}")
                        if new or more:
                            tight.update(more)
                            break
                if not new and not more:
                    break
            tries *= 10
        exact |= new
        derived.update(rel)
    info = f"atoms {len(ib.atoms)} monomials {len(ib.mono)} constraints {len(ib.cons)}"
    secs = time.time() - t0
    if r == z3.unsat:
        return Result("unsat", secs=secs, info=info, backend="z3-lia")
    if r == z3.sat:
        env = {}
        for v, p in ib.inputs.items():
            x = m.eval(ib.z(p) if v.w else p, model_completion=True)
            env[v] = x.as_long() if v.w else int(z3.is_true(x))
        try:
            if evaluate([f], env)[0]:
                return Result("sat", env, secs, info, "z3-lia")
        except Exception:
            pass
        if br is not None:
            return split(br)
        if DEBUG:
            print("exact", exact, "derived", {k: ([y.id for y in x], c) for k, (x, c) in derived.items()})
            for p, a, s_ in ib.pows.values():
                print("pow", p, a, s_.id, str(s_)[:200])
            for t in postorder(ls):
                if t.w and t.op != "const":
                    print(t.id, t.op, t.w, t.x, [y.id if y.op != "const" else "#%x" % y.x for y in t.args], "=", ib.V[t.id], "->", m.eval(ib.z(ib.V[t.id])))
                elif t.op != "const":
                    print(t.id, t.op, [y.id if y.op != "const" else "#%x" % y.x for y in t.args], "->", m.eval(ib.B[t.id]))
            print("conj", [t.id for t in ls])
        return Result("unknown", secs=secs, info=info + " integer abstraction satisfiable")
    return Result("unknown", secs=secs, info=info + " " + s.reason_unknown())
