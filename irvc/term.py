"""Hash-consed bit-vector / boolean terms with local simplification.

Sorts: w == 0 boolean, w > 0 bit vector of that width, w == -1 byte memory
(array 64-bit address -> byte).
"""
import sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "args", "w", "id", "x", "_rng")

    def __init__(self, op, args, w, x, id):
        self.op = op
        self.args = args
        self.w = w
        self.x = x
        self.id = id
        self._rng = None

    def __repr__(self):
        return show(self, 3)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_all = []


def mk(op, args, w, x=None):
    key = (op, w, x) + tuple([a.id for a in args])
    t = _tab.get(key)
    if t is None:
        t = T(op, args, w, x, len(_all))
        _all.append(t)
        _tab[key] = t
    return t


def show(t, depth=4):
    if t.op == "const":
        return f"{t.x:#x}:{t.w}" if t.w else str(bool(t.x))
    if t.op == "var":
        return t.x
    if depth == 0:
        return f"#{t.id}"
    ex = "" if t.x is None else f"[{t.x}]"
    return f"({t.op}{ex}/{t.w} " + " ".join(show(a, depth - 1) for a in t.args) + ")"


TRUE = mk("const", (), 0, 1)
FALSE = mk("const", (), 0, 0)


def const(v, w):
    if w == 0:
        return TRUE if v else FALSE
    return mk("const", (), w, v & ((1 << w) - 1))


def boolc(b):
    return TRUE if b else FALSE


_fresh = [0]


def var(name, w):
    return mk("var", (), w, name)


def fresh(name, w):
    _fresh[0] += 1
    return var(f"{name}!{_fresh[0]}", w)


def isc(t):
    return t.op == "const"


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- booleans
def bnot(a):
    if a.op == "const":
        return FALSE if a.x else TRUE
    if a.op == "bnot":
        return a.args[0]
    return mk("bnot", (a,), 0)


def band(*xs):
    s = {}
    st = list(xs)
    st.reverse()
    while st:
        a = st.pop()
        if a.op == "const":
            if not a.x:
                return FALSE
            continue
        if a.op == "band":
            st.extend(reversed(a.args))
            continue
        s[a.id] = a
    for a in s.values():
        if a.op == "bnot" and a.args[0].id in s:
            return FALSE
    if not s:
        return TRUE
    # unit absorption: (a | b) with a known false/true
    changed = True
    while changed:
        changed = False
        for a in list(s.values()):
            if a.op == "bor":
                keep = []
                sat = False
                for d in a.args:
                    if d.id in s:
                        sat = True
                        break
                    n = bnot(d)
                    if n.id in s:
                        continue
                    keep.append(d)
                if sat:
                    del s[a.id]
                    changed = True
                elif len(keep) < len(a.args):
                    del s[a.id]
                    if not keep:
                        return FALSE
                    n = bor(*keep)
                    if n.op == "band":
                        for z in n.args:
                            s[z.id] = z
                    elif n is FALSE:
                        return FALSE
                    elif n is not TRUE:
                        s[n.id] = n
                    changed = True
        if changed:
            for a in s.values():
                if a.op == "bnot" and a.args[0].id in s:
                    return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk("band", tuple(sorted(s.values(), key=lambda t: t.id)), 0)


def lits(g):
    return g.args if g.op == "band" else (() if g is TRUE else (g,))


def bor(*xs):
    s = {}
    st = list(xs)
    st.reverse()
    while st:
        a = st.pop()
        if a.op == "const":
            if a.x:
                return TRUE
            continue
        if a.op == "bor":
            st.extend(reversed(a.args))
            continue
        s[a.id] = a
    for a in s.values():
        if a.op == "bnot" and a.args[0].id in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s.values()))
    vs = sorted(s.values(), key=lambda t: t.id)
    if len(vs) == 2:
        a, b = vs
        la = {l.id: l for l in lits(a)}
        lb = {l.id: l for l in lits(b)}
        common = [l for i, l in la.items() if i in lb]
        if common:
            ra = [l for i, l in la.items() if i not in lb]
            rb = [l for i, l in lb.items() if i not in la]
            if not ra or not rb:
                return band(*common)
            if len(ra) == 1 and bnot(ra[0]).id in {l.id for l in rb}:
                # a | (~a & r)  ==  a | r
                rb = [l for l in rb if l is not bnot(ra[0])]
            if len(rb) == 1 and bnot(rb[0]).id in {l.id for l in ra}:
                ra = [l for l in ra if l is not bnot(rb[0])]
            if not ra or not rb:
                return band(*common)
            return band(*common, bor(band(*ra), band(*rb)))
        if len(la) == 1 and len(lb) > 1:
            n = bnot(a)
            if n.id in lb:
                return bor(a, band(*[l for l in lb.values() if l is not n]))
        if len(lb) == 1 and len(la) > 1:
            n = bnot(b)
            if n.id in la:
                return bor(b, band(*[l for l in la.values() if l is not n]))
    return mk("bor", tuple(vs), 0)


def implies(a, b):
    return bor(bnot(a), b)


def biff(a, b):
    if a is b:
        return TRUE
    if isc(a):
        return b if a.x else bnot(b)
    if isc(b):
        return a if b.x else bnot(a)
    if a.op == "bnot" and b.op == "bnot":
        return biff(a.args[0], b.args[0])
    if bnot(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("biff", (a, b), 0)


def bxor(a, b):
    return bnot(biff(a, b))


def bite(c, a, b):
    if isc(c):
        return a if c.x else b
    if a is b:
        return a
    if c.op == "bnot":
        return bite(c.args[0], b, a)
    if isc(a):
        return bor(c, b) if a.x else band(bnot(c), b)
    if isc(b):
        return bor(bnot(c), a) if b.x else band(c, a)
    if a is c:
        return bor(c, b)
    if b is c:
        return band(c, a)
    return mk("bite", (c, a, b), 0)


# ---------------------------------------------------------------- ranges
def urange(t):
    r = t._rng
    if r is not None:
        return r
    # iterative post-order
    st = [t]
    while st:
        u = st[-1]
        if u._rng is not None:
            st.pop()
            continue
        pend = [a for a in u.args if a.w > 0 and a._rng is None]
        if pend:
            st.extend(pend)
            continue
        u._rng = _urange(u)
        st.pop()
    return t._rng


def _urange(t):
    w = t.w
    if w <= 0:
        return (0, 1)
    M = mask(w)
    op = t.op
    if op == "const":
        return (t.x, t.x)
    a = t.args
    if op == "zext":
        return a[0]._rng
    if op == "sext":
        lo, hi = a[0]._rng
        if hi < (1 << (a[0].w - 1)):
            return (lo, hi)
        return (0, M)
    if op == "ite":
        r1 = a[1]._rng
        r2 = a[2]._rng
        return (min(r1[0], r2[0]), max(r1[1], r2[1]))
    if op == "add":
        l1, h1 = a[0]._rng
        l2, h2 = a[1]._rng
        if h1 + h2 <= M:
            return (l1 + l2, h1 + h2)
        if l1 + l2 > M:
            return (l1 + l2 - M - 1, h1 + h2 - M - 1)
        return (0, M)
    if op == "sub":
        l1, h1 = a[0]._rng
        l2, h2 = a[1]._rng
        if l1 >= h2:
            return (l1 - h2, h1 - l2)
        return (0, M)
    if op == "mul":
        l1, h1 = a[0]._rng
        l2, h2 = a[1]._rng
        if h1 * h2 <= M:
            return (l1 * l2, h1 * h2)
        return (0, M)
    if op == "and":
        return (0, min(a[0]._rng[1], a[1]._rng[1]))
    if op in ("or", "xor"):
        h = max(a[0]._rng[1], a[1]._rng[1])
        lo = max(a[0]._rng[0], a[1]._rng[0]) if op == "or" else 0
        return (lo, min(M, mask(h.bit_length())))
    if op == "not":
        l, h = a[0]._rng
        return (M - h, M - l)
    if op == "concat":
        lo = a[1].w
        return ((a[0]._rng[0] << lo) + a[1]._rng[0], (a[0]._rng[1] << lo) + a[1]._rng[1])
    if op == "extract":
        hi, lo = t.x
        l, h = a[0]._rng
        if h >> (hi + 1) == l >> (hi + 1):
            m = mask(hi + 1)
            return ((l & m) >> lo, (h & m) >> lo)
        return (0, M)
    if op == "udiv":
        l1, h1 = a[0]._rng
        l2, h2 = a[1]._rng
        if l2 > 0:
            return (l1 // h2, h1 // l2)
        return (0, M)
    if op == "urem":
        l2, h2 = a[1]._rng
        if l2 > 0:
            return (0, min(h2 - 1, a[0]._rng[1]))
        return (0, a[0]._rng[1])
    if op == "lshr":
        l1, h1 = a[0]._rng
        l2, h2 = a[1]._rng
        return (l1 >> h2 if h2 < w else 0, h1 >> l2 if l2 < w else 0)
    if op == "shl":
        l1, h1 = a[0]._rng
        l2, h2 = a[1]._rng
        if h2 < w and (h1 << h2) <= M:
            return (l1 << l2, h1 << h2)
        return (0, M)
    if op == "clz":
        l, h = a[0]._rng
        return (w0(a[0], h), w0(a[0], l))
    if op == "popcnt":
        return (0, a[0].w)
    return (0, M)


def w0(a, v):
    return a.w - v.bit_length()


# ---------------------------------------------------------------- bit vectors
def extract(hi, lo, a):
    w = hi - lo + 1
    assert 0 <= lo <= hi < a.w, (hi, lo, a.w)
    if w == a.w:
        return a
    op = a.op
    if op == "const":
        return const(a.x >> lo, w)
    if op == "extract":
        return extract(hi + a.x[1], lo + a.x[1], a.args[0])
    if op == "concat":
        h, l = a.args
        if hi < l.w:
            return extract(hi, lo, l)
        if lo >= l.w:
            return extract(hi - l.w, lo - l.w, h)
        return concat(extract(hi - l.w, 0, h), extract(l.w - 1, lo, l))
    if op == "zext":
        b = a.args[0]
        if hi < b.w:
            return extract(hi, lo, b)
        if lo >= b.w:
            return const(0, w)
        return zext(extract(b.w - 1, lo, b), w)
    if op == "sext":
        b = a.args[0]
        if hi < b.w:
            return extract(hi, lo, b)
        if lo < b.w:
            return sext(extract(b.w - 1, lo, b), w)
        return sext(extract(b.w - 1, b.w - 1, b), w)
    if op == "ite":
        c, p, q = a.args
        if isc(p) or isc(q):
            return ite(c, extract(hi, lo, p), extract(hi, lo, q))
    if op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[op]
        if isc(a.args[0]) or isc(a.args[1]):
            return f(extract(hi, lo, a.args[0]), extract(hi, lo, a.args[1]))
        for p, q in (a.args, a.args[::-1]):
            if p.op in ("zext", "concat") or p.op == "and" and isc(p.args[1]):
                x = extract(hi, lo, p)
                if isc(x):
                    return f(x, extract(hi, lo, q))
    if op == "not":
        return not_(extract(hi, lo, a.args[0]))
    r = urange(a)
    if r[1] >> lo == 0:
        return const(0, w)
    return mk("extract", (a,), w, (hi, lo))


def concat(a, b):
    """a is the high part"""
    w = a.w + b.w
    if a.op == "const":
        if b.op == "const":
            return const(a.x << b.w | b.x, w)
        if a.x == 0:
            return zext(b, w)
    if a.op == "extract" and b.op == "extract" and a.args[0] is b.args[0] and a.x[1] == b.x[0] + 1:
        return extract(a.x[0], b.x[1], a.args[0])
    if a.op == "zext":
        return zext(concat(a.args[0], b), w)
    if b.op == "concat" and isc(a) and isc(b.args[0]):
        return concat(concat(a, b.args[0]), b.args[1])
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], concat(a.args[1], b.args[1]), concat(a.args[2], b.args[2]))
    if a.op == "concat":
        # right-assoc merge: (x . y) . b  with y.b mergeable
        y = a.args[1]
        if y.op == "extract" and b.op == "extract" and y.args[0] is b.args[0] and y.x[1] == b.x[0] + 1:
            return concat(a.args[0], extract(y.x[0], b.x[1], y.args[0]))
        if isc(y) and isc(b):
            return concat(a.args[0], const(y.x << b.w | b.x, y.w + b.w))
    if b.op == "concat":
        y = b.args[0]
        if a.op == "extract" and y.op == "extract" and a.args[0] is y.args[0] and a.x[1] == y.x[0] + 1:
            return concat(extract(a.x[0], y.x[1], a.args[0]), b.args[1])
    # extension fed by sign bit replicate is left as is
    return mk("concat", (a, b), w)


def zext(a, w):
    if w == a.w:
        return a
    assert w > a.w, (w, a.w)
    if a.op == "const":
        return const(a.x, w)
    if a.op == "zext":
        return zext(a.args[0], w)
    return mk("zext", (a,), w)


def sext(a, w):
    if w == a.w:
        return a
    if a.op == "const":
        return const(sgn(a.x, a.w), w)
    if a.op == "sext":
        return sext(a.args[0], w)
    if a.op == "zext" or urange(a)[1] < (1 << (a.w - 1)):
        return zext(a, w)
    return mk("sext", (a,), w)


def trunc(a, w):
    return extract(w - 1, 0, a)


def resize(a, w):
    return zext(a, w) if w >= a.w else trunc(a, w)


def ite(c, a, b):
    if a.w == 0:
        return bite(c, a, b)
    if isc(c):
        return a if c.x else b
    if a is b:
        return a
    if c.op == "bnot":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if a.w > 0 and a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return zext(ite(c, a.args[0], b.args[0]), a.w)
    return mk("ite", (c, a, b), a.w)


def b2bv(c, w=1):
    return ite(c, const(1, w), const(0, w))


def bv2b(a):
    assert a.w == 1
    return eq(a, const(1, 1))


def not_(a):
    if a.op == "const":
        return const(~a.x, a.w)
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), a.w)


def _ord(a, b):
    if isc(a) or (not isc(b) and a.id > b.id):
        return b, a
    return a, b


def _maskinfo(v, w):
    """v == contiguous ones [hi:lo]?"""
    if v == 0:
        return None
    lo = (v & -v).bit_length() - 1
    u = v >> lo
    if u & (u + 1) == 0:
        return (lo + u.bit_length() - 1, lo)
    return None


def and_(a, b):
    a, b = _ord(a, b)
    if a is b:
        return a
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.x & b.x, w)
        if b.x == 0:
            return b
        if b.x == mask(w):
            return a
        m = _maskinfo(b.x, w)
        if m:
            hi, lo = m
            r = extract(hi, lo, a)
            if lo:
                r = concat(r, const(0, lo))
            return zext(r, w)
        if a.op == "and" and isc(a.args[1]):
            return and_(a.args[0], const(a.args[1].x & b.x, w))
    if not_(a) is b:
        return const(0, w)
    if a.op == "zext" or b.op == "zext":
        k = min(x.args[0].w for x in (a, b) if x.op == "zext")
        return zext(and_(trunc(a, k), trunc(b, k)), w)
    return mk("and", (a, b), w)


def or_(a, b):
    a, b = _ord(a, b)
    if a is b:
        return a
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.x | b.x, w)
        if b.x == 0:
            return a
        if b.x == mask(w):
            return b
        if a.op == "or" and isc(a.args[1]):
            return or_(a.args[0], const(a.args[1].x | b.x, w))
    # disjoint placement -> concat
    for p, q in ((a, b), (b, a)):
        # p has zero low k bits, q fits k bits
        k = _tz(p)
        if 0 < k < w and urange(q)[1] < (1 << k):
            return concat(extract(w - 1, k, p), trunc(q, k))
    if a.op == "zext" and b.op == "zext":
        k = max(a.args[0].w, b.args[0].w)
        return zext(or_(trunc(a, k), trunc(b, k)), w)
    return mk("or", (a, b), w)


_tzc = {}


def _tz(t):
    r = _tzc.get(t.id)
    if r is None:
        r = _tzc[t.id] = _tz1(t)
    return r


def _tz1(t):
    """known trailing zero count (syntactic)"""
    if t.op == "const":
        return (t.x & -t.x).bit_length() - 1 if t.x else t.w
    if t.op == "zext":
        k = _tz(t.args[0])
        return k if k < t.args[0].w else t.w
    if t.op == "concat":
        k = _tz(t.args[1])
        if k == t.args[1].w:
            return k + _tz(t.args[0])
        return k
    if t.op == "ite":
        return min(_tz(t.args[1]), _tz(t.args[2]))
    return 0


def xor(a, b):
    a, b = _ord(a, b)
    if a is b:
        return const(0, a.w)
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.x ^ b.x, w)
        if b.x == 0:
            return a
        if b.x == mask(w):
            return not_(a)
        if a.op == "xor" and isc(a.args[1]):
            return xor(a.args[0], const(a.args[1].x ^ b.x, w))
    if a.op == "xor":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    if b.op == "xor":
        if b.args[0] is a:
            return b.args[1]
        if b.args[1] is a:
            return b.args[0]
    if a.op == "zext" and b.op == "zext":
        k = max(a.args[0].w, b.args[0].w)
        return zext(xor(trunc(a, k), trunc(b, k)), w)
    return mk("xor", (a, b), w)


def add(a, b):
    a, b = _ord(a, b)
    w = a.w
    assert w == b.w, (w, b.w)
    if isc(b):
        if isc(a):
            return const(a.x + b.x, w)
        if b.x == 0:
            return a
        if a.op == "add" and isc(a.args[1]):
            return add(a.args[0], const(a.args[1].x + b.x, w))
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
            return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    # (x - y) + y -> x
    if a.op == "sub" and a.args[1] is b:
        return a.args[0]
    if b.op == "sub" and b.args[1] is a:
        return b.args[0]
    return mk("add", (a, b), w)


def neg(a):
    return sub(const(0, a.w), a)


def sub(a, b):
    w = a.w
    assert w == b.w
    if a is b:
        return const(0, w)
    if isc(b):
        return add(a, const(-b.x, w))
    if a.op == "add":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
        if isc(a.args[1]) and b.op == "add" and isc(b.args[1]) and a.args[0] is b.args[0]:
            return const(a.args[1].x - b.args[1].x, w)
    if b.op == "add" and isc(b.args[1]) and b.args[0] is a:
        return const(-b.args[1].x, w)
    if isc(a) and a.x == 0 and b.op == "sub":
        return sub(b.args[1], b.args[0])
    if b.op == "ite" and isc(a) and isc(b.args[1]) and isc(b.args[2]):
        return ite(b.args[0], sub(a, b.args[1]), sub(a, b.args[2]))
    if isc(a) and b.op == "add" and isc(b.args[1]):
        return sub(const(a.x - b.args[1].x, w), b.args[0])
    return mk("sub", (a, b), w)


def mul(a, b):
    a, b = _ord(a, b)
    w = a.w
    if isc(b):
        if isc(a):
            return const(a.x * b.x, w)
        if b.x == 0:
            return b
        if b.x == 1:
            return a
        if b.x & (b.x - 1) == 0:
            return shl(a, const(b.x.bit_length() - 1, w))
    return mk("mul", (a, b), w)


def udiv(a, b):
    w = a.w
    if isc(b) and b.x == 0:
        return const(-1, w)
    if isc(b) and b.x:
        if isc(a):
            return const(a.x // b.x, w)
        if b.x & (b.x - 1) == 0:
            return lshr(a, const(b.x.bit_length() - 1, w))
    return mk("udiv", (a, b), w)


def urem(a, b):
    w = a.w
    if isc(b) and b.x == 0:
        return a
    if isc(b) and b.x:
        if isc(a):
            return const(a.x % b.x, w)
        if b.x & (b.x - 1) == 0:
            return and_(a, const(b.x - 1, w))
        if urange(a)[1] < b.x:
            return a
    return mk("urem", (a, b), w)


def sdiv(a, b):
    w = a.w
    sa = slt(a, const(0, w))
    sb = slt(b, const(0, w))
    q = udiv(ite(sa, neg(a), a), ite(sb, neg(b), b))
    return ite(bxor(sa, sb), neg(q), q)


def srem(a, b):
    w = a.w
    sa = slt(a, const(0, w))
    sb = slt(b, const(0, w))
    r = urem(ite(sa, neg(a), a), ite(sb, neg(b), b))
    return ite(sa, neg(r), r)


def shl(a, b):
    w = a.w
    if isc(b):
        k = b.x
        if k == 0:
            return a
        if k >= w:
            return const(0, w)
        return concat(trunc(a, w - k), const(0, k))
    if isc(a) and a.x == 0:
        return a
    return mk("shl", (a, b), w)


def lshr(a, b):
    w = a.w
    if isc(b):
        k = b.x
        if k == 0:
            return a
        if k >= w:
            return const(0, w)
        return zext(extract(w - 1, k, a), w)
    if isc(a) and a.x == 0:
        return a
    return mk("lshr", (a, b), w)


def ashr(a, b):
    w = a.w
    if isc(b):
        k = min(b.x, w - 1)
        if k == 0:
            return a
        return sext(extract(w - 1, k, a), w)
    if urange(a)[1] < (1 << (w - 1)):
        return lshr(a, b)
    return mk("ashr", (a, b), w)


def clz(a):
    """count leading zeros, width of a"""
    if isc(a):
        return const(a.w - a.x.bit_length(), a.w)
    return mk("clz", (a,), a.w)


def ctz(a):
    if isc(a):
        return const((a.x & -a.x).bit_length() - 1 if a.x else a.w, a.w)
    return mk("ctz", (a,), a.w)


def popcnt(a):
    if isc(a):
        return const(bin(a.x).count("1"), a.w)
    return mk("popcnt", (a,), a.w)


def bswap(a):
    n = a.w // 8
    r = extract(7, 0, a)
    for i in range(1, n):
        r = concat(r, extract(8 * i + 7, 8 * i, a))
    return r


# ---------------------------------------------------------------- predicates
def eq(a, b):
    if a.w == 0:
        return biff(a, b)
    assert a.w == b.w, (a.w, b.w)
    if a is b:
        return TRUE
    a, b = _ord(a, b)
    if isc(b):
        if isc(a):
            return boolc(a.x == b.x)
        lo, hi = urange(a)
        if not lo <= b.x <= hi:
            return FALSE
        if a.op == "zext":
            return eq(a.args[0], const(b.x, a.args[0].w))
        if a.op == "ite":
            c, p, q = a.args
            if isc(p):
                if p.x == b.x:
                    return bor(c, eq(q, b))
                return band(bnot(c), eq(q, b))
            if isc(q):
                if q.x == b.x:
                    return bor(bnot(c), eq(p, b))
                return band(c, eq(p, b))
        if a.op == "concat":
            h, l = a.args
            return band(eq(h, const(b.x >> l.w, h.w)), eq(l, const(b.x, l.w)))
        if a.op == "not":
            return eq(a.args[0], const(~b.x, a.w))
        if a.op == "add" and isc(a.args[1]):
            return eq(a.args[0], const(b.x - a.args[1].x, a.w))
        if a.op == "sub" and b.x == 0:
            return eq(a.args[0], a.args[1])
        if a.op == "xor":
            if isc(a.args[1]):
                return eq(a.args[0], const(b.x ^ a.args[1].x, a.w))
            if b.x == 0:
                return eq(a.args[0], a.args[1])
        if a.op == "sext" :
            k = a.args[0].w
            s = const(b.x, k)
            return eq(a.args[0], s) if sgn(s.x, k) & mask(a.w) == b.x else FALSE
        if a.op == "or" and b.x == 0:
            return band(eq(a.args[0], b), eq(a.args[1], b))
    else:
        ra, rb = urange(a), urange(b)
        if ra[1] < rb[0] or rb[1] < ra[0]:
            return FALSE
        if a.op == "zext" and b.op == "zext":
            k = max(a.args[0].w, b.args[0].w)
            return eq(trunc(a, k), trunc(b, k))
        if a.op == "concat" and b.op == "concat" and a.args[0].w == b.args[0].w:
            return band(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
        if a.op == "add" and b.op == "add" and isc(a.args[1]) and isc(b.args[1]):
            if a.args[0] is b.args[0]:
                return boolc(a.args[1].x == b.args[1].x)
    return mk("eq", (a, b), 0)


def ne(a, b):
    return bnot(eq(a, b))


def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    ra, rb = urange(a), urange(b)
    if ra[1] < rb[0]:
        return TRUE
    if ra[0] >= rb[1]:
        return FALSE
    if isc(b) and b.x == 1:
        return eq(a, const(0, a.w))
    if isc(a) and a.x == 0:
        return ne(b, a)
    if a.op == "zext" and b.op == "zext" or (a.op == "zext" and isc(b)) or (isc(a) and b.op == "zext"):
        k = max([x.args[0].w if x.op == "zext" else x.x.bit_length() for x in (a, b)])
        if k < a.w:
            return ult(trunc(a, k), trunc(b, k))
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
        return bite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if b.op == "ite" and isc(b.args[1]) and isc(b.args[2]):
        return bite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    return mk("ult", (a, b), 0)


def ule(a, b):
    return bnot(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return bnot(ult(a, b))


def slt(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    w = a.w
    H = 1 << (w - 1)
    if isc(a) and isc(b):
        return boolc(sgn(a.x, w) < sgn(b.x, w))
    ra, rb = srange(a), srange(b)
    if ra[1] < rb[0]:
        return TRUE
    if ra[0] >= rb[1]:
        return FALSE
    if ra[0] >= 0 and rb[0] >= 0:
        return ult(a, b)
    if isc(b) and b.x == 0:
        return eq(extract(w - 1, w - 1, a), const(1, 1))
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]):
        return bite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if b.op == "ite" and isc(b.args[1]) and isc(b.args[2]):
        return bite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    return mk("slt", (a, b), 0)


_sr = {}


def srange(t):
    r = _sr.get(t.id)
    if r is None:
        r = _srange(t)
        _sr[t.id] = r
    return r


def _srange(t, depth=0):
    w = t.w
    H = 1 << (w - 1)
    lo, hi = urange(t)
    if hi < H:
        return (lo, hi)
    if lo >= H:
        return (lo - 2 * H, hi - 2 * H)
    if t.id in _sr:
        return _sr[t.id]
    if t.op == "sext":
        return _srange(t.args[0], depth + 1) if depth < 60 else (-H, H - 1)
    if depth < 60:
        if t.op == "add":
            a = _srange(t.args[0], depth + 1)
            b = _srange(t.args[1], depth + 1)
            if a[0] + b[0] >= -H and a[1] + b[1] < H:
                _sr[t.id] = r = (a[0] + b[0], a[1] + b[1])
                return r
        if t.op == "sub":
            a = _srange(t.args[0], depth + 1)
            b = _srange(t.args[1], depth + 1)
            if a[0] - b[1] >= -H and a[1] - b[0] < H:
                _sr[t.id] = r = (a[0] - b[1], a[1] - b[0])
                return r
        if t.op == "ite":
            a = _srange(t.args[1], depth + 1)
            b = _srange(t.args[2], depth + 1)
            _sr[t.id] = r = (min(a[0], b[0]), max(a[1], b[1]))
            return r
    return (-H, H - 1)


def sle(a, b):
    return bnot(slt(b, a))


def sgt(a, b):
    return slt(b, a)


def sge(a, b):
    return bnot(slt(a, b))


# ---------------------------------------------------------------- memory arrays / UF
def select(m, addr):
    """byte at addr"""
    while True:
        if m.op == "store":
            base, ad, v = m.args
            if ad is addr:
                return v
            if isc(sub(ad, addr)):
                m = base
                continue
            break
        if m.op == "ite":
            break
        break
    return mk("select", (m, addr), 8)


def store(m, addr, v):
    return mk("store", (m, addr, v), -1)


def mloop(m, t, w0, V, J, n, fwd):
    """memory after t iterations of a loop whose iteration J wrote the n-byte word V(J) at
    w0 + n*J (or w0 - n*J)"""
    return mk("mloop", (m, t, w0, V, J), -1, (n, fwd))


def mfun(m, t, w0, src):
    """memory with the t bytes from w0 on copied from src on"""
    J = fresh("J", 64)
    return mk("mloop", (m, t, w0, select(m, add(src, J)), J), -1, (1, True))


def linear(t):
    """atom -> coefficient (None: constant)"""
    out = {}
    st = [(t, 1)]
    while st:
        x, c = st.pop()
        if isc(x):
            out[None] = out.get(None, 0) + c * x.x
        elif x.op == "add":
            st += [(a, c) for a in x.args]
        elif x.op == "sub":
            st += [(x.args[0], c), (x.args[1], -c)]
        elif x.op == "shl" and isc(x.args[1]):
            st.append((x.args[0], c << x.args[1].x))
        else:
            out[x] = out.get(x, 0) + c
    return {k: v for k, v in out.items() if v}


def lsub(a, b):
    """a - b as a sum of multiples of atoms"""
    w = a.w
    d = linear(sub(a, b))
    k = d.pop(None, 0) & mask(w)
    r = None
    for s in (1, -1):
        for x, c in sorted(d.items(), key=lambda i: i[0].id):
            if sgn(c & mask(w), w) * s > 0:
                c = abs(sgn(c & mask(w), w))
                m = x if c == 1 else shl(x, const(c.bit_length() - 1, w)) if c & (c - 1) == 0 else mul(x, const(c, w))
                r = (m if s > 0 else neg(m)) if r is None else add(r, m) if s > 0 else sub(r, m)
    return const(k, w) if r is None else add(r, const(k, w))


def _copied(V, J, n, fwd, off):
    """the byte at distance off, where iteration J copied a word from an address that moves along"""
    bs = [extract(8 * i + 7, 8 * i, V) for i in range(n)]
    if any(b.op != "select" or b.args[0] is not bs[0].args[0] for b in bs):
        return None
    if any(y is J for y in postorder([bs[0].args[0]])):
        return None
    ls = [linear(b.args[1]) for b in bs]
    if ls[0].get(J) != (n if fwd else -n):
        return None
    for i, l in enumerate(ls):
        if (l.get(None, 0) - ls[0].get(None, 0)) & mask(64) != i or {k: v for k, v in l.items() if k is not None} != {k: v for k, v in ls[0].items() if k is not None}:
            return None
    if any(y is J for k in ls[0] if k is not None and k is not J for y in postorder([k])):
        return None
    a0 = substitute([bs[0].args[1]], {J: const(0, 64)})[0]
    a = add(a0, off) if fwd else sub(add(a0, const(n - 1, 64)), off)
    return select(bs[0].args[0], lsub(a, const(0, 64)))


def _word_byte(V, n, idx):
    """byte number idx of the word"""
    bs = [extract(8 * i + 7, 8 * i, V) for i in range(n)]
    if all(b is bs[0] for b in bs):
        return bs[0]
    if all(b.op == "select" and b.args[0] is bs[0].args[0] and sub(b.args[1], bs[0].args[1]) is const(i, 64) for i, b in enumerate(bs)):
        return select(bs[0].args[0], add(bs[0].args[1], idx))
    r = bs[-1]
    for i in range(n - 2, -1, -1):
        r = ite(eq(idx, const(i, 64)), bs[i], r)
    return r


def rdbyte(m, x, memo):
    """select(m, x) with stores, choices and loops unfolded down to the initial memory"""
    x = lsub(x, const(0, 64))
    key = (m.id, x.id)
    if key in memo:
        return memo[key]
    c = lambda v: const(v, 64)
    if m.op == "store":
        base, ad, v = m.args
        d = sub(ad, x)
        if isc(d):
            r = expand([v], memo)[0] if d.x == 0 else rdbyte(base, x, memo)
        else:
            v, ad = expand([v, ad], memo)
            r = ite(eq(ad, x), v, rdbyte(base, x, memo))
    elif m.op == "ite":
        r = ite(expand([m.args[0]], memo)[0], rdbyte(m.args[1], x, memo), rdbyte(m.args[2], x, memo))
    elif m.op == "mloop":
        base, t, w0, V, J = m.args
        n, fwd = m.x
        t2, w2 = expand([t, w0], memo)
        k = n.bit_length() - 1
        off = lsub(x, w2) if fwd else lsub(add(w2, c(n - 1)), x)
        j = lshr(off, c(k))
        idx = and_(off, c(n - 1))
        if not fwd:
            idx = sub(c(n - 1), idx)
        b = _copied(V, J, n, fwd, off)
        if b is None:
            b = _word_byte(substitute([V], {J: j})[0], n, idx)
        r = ite(ult(j, t2), expand([b], memo)[0], rdbyte(base, x, memo))
    else:
        r = mk("select", (m, x), 8)
    memo[key] = r
    return r


def expand(roots, memo=None):
    """roots with every memory read unfolded down to the initial memory"""
    memo = {} if memo is None else memo
    res = memo.setdefault("terms", {})
    st = [(r, False) for r in reversed(roots)]
    while st:
        t, done = st.pop()
        if t.id in res:
            continue
        if not t.args or t.w == -1:
            res[t.id] = t
            continue
        ch = t.args[1:] if t.op == "select" else t.args
        if not done:
            st.append((t, True))
            st.extend((a, False) for a in ch if a.id not in res)
            continue
        na = [res[a.id] for a in ch]
        if t.op == "select":
            res[t.id] = rdbyte(t.args[0], na[0], memo)
        elif all(a is b for a, b in zip(na, ch)):
            res[t.id] = t
        else:
            res[t.id] = rebuild(t, na)
    return [res[r.id] for r in roots]


def uf(name, w, *args):
    return mk("uf", tuple(args), w, name)


# ---------------------------------------------------------------- traversal
def postorder(roots):
    seen = set()
    out = []
    for r in roots:
        if r.id in seen:
            continue
        st = [(r, 0)]
        seen.add(r.id)
        while st:
            t, i = st.pop()
            if i < len(t.args):
                st.append((t, i + 1))
                a = t.args[i]
                if a.id not in seen:
                    seen.add(a.id)
                    st.append((a, 0))
            else:
                out.append(t)
    return out


def size(*roots):
    return len(postorder(roots))


def variables(*roots):
    return [t for t in postorder(roots) if t.op == "var"]


def evaluate(roots, env, uf_interp=None):
    """env: dict var term -> int (or dict for memory). Returns list of ints."""
    val = {}
    for t in postorder(roots):
        op = t.op
        a = [val[x.id] for x in t.args]
        w = t.w
        if op == "const":
            v = t.x
        elif op == "var":
            v = env.get(t)
            if v is None:
                v = {} if w == -1 else 0
        elif op == "bnot":
            v = 1 - a[0]
        elif op == "band":
            v = int(all(a))
        elif op == "bor":
            v = int(any(a))
        elif op == "biff":
            v = int(a[0] == a[1])
        elif op in ("bite", "ite"):
            v = a[1] if a[0] else a[2]
        elif op == "eq":
            v = int(a[0] == a[1])
        elif op == "ult":
            v = int(a[0] < a[1])
        elif op == "slt":
            W = t.args[0].w
            v = int(sgn(a[0], W) < sgn(a[1], W))
        elif op == "add":
            v = (a[0] + a[1]) & mask(w)
        elif op == "sub":
            v = (a[0] - a[1]) & mask(w)
        elif op == "mul":
            v = (a[0] * a[1]) & mask(w)
        elif op == "udiv":
            v = a[0] // a[1] if a[1] else mask(w)
        elif op == "urem":
            v = a[0] % a[1] if a[1] else a[0]
        elif op == "and":
            v = a[0] & a[1]
        elif op == "or":
            v = a[0] | a[1]
        elif op == "xor":
            v = a[0] ^ a[1]
        elif op == "not":
            v = a[0] ^ mask(w)
        elif op == "shl":
            v = (a[0] << a[1]) & mask(w) if a[1] < w else 0
        elif op == "lshr":
            v = a[0] >> a[1] if a[1] < w else 0
        elif op == "ashr":
            v = (sgn(a[0], w) >> min(a[1], w - 1)) & mask(w)
        elif op == "concat":
            v = a[0] << t.args[1].w | a[1]
        elif op == "extract":
            v = (a[0] >> t.x[1]) & mask(w)
        elif op == "zext":
            v = a[0]
        elif op == "sext":
            v = sgn(a[0], t.args[0].w) & mask(w)
        elif op == "clz":
            v = w - a[0].bit_length()
        elif op == "ctz":
            v = (a[0] & -a[0]).bit_length() - 1 if a[0] else w
        elif op == "popcnt":
            v = bin(a[0]).count("1")
        elif op == "select":
            v = a[0].get(a[1], a[0].get("default", 0))
        elif op == "store":
            v = dict(a[0])
            v[a[1]] = a[2]
        elif op == "uf":
            v = uf_interp(t, a) if uf_interp else 0
        else:
            raise Exception("eval " + op)
        val[t.id] = v
    return [val[r.id] for r in roots]


def substitute(roots, sub_):
    """Rebuild roots with sub_ (term -> term)."""
    m = {k.id: v for k, v in sub_.items()}
    for t in postorder(roots):
        if t.id in m:
            continue
        if not t.args:
            m[t.id] = t
            continue
        na = [m[a.id] for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            m[t.id] = t
        else:
            m[t.id] = rebuild(t, na)
    return [m[r.id] for r in roots]


def propagate(f, rounds=4):
    """conjunction equivalent to f, with conjuncts that are known used to simplify the others"""
    for _ in range(rounds):
        ls = [m for l in lits(f) for m in ([bnot(x) for x in l.args[0].args] if l.op == "bnot" and l.args[0].op == "bor" else [l])]
        ls = [m for l in ls for m in lits(l)]
        unit = {}
        for l in ls:
            if l.op == "bnot":
                unit[l.args[0]] = FALSE
            elif l.op not in ("bor", "band"):
                unit[l] = TRUE
                if l.op == "eq" and l.args[0].w > 0:
                    for x, y in (l.args, l.args[::-1]):
                        if y.op == "const" and x.op != "const":
                            unit[x] = y
        if not unit:
            return f
        rest = substitute([l for l in ls if l.op == "bor"], unit)
        keep = []
        for l in ls:
            if l.op == "bor":
                continue
            a = l.args[0] if l.op == "bnot" else l
            u = {k: v for k, v in unit.items() if k is not a and not (a.op == "eq" and k in a.args)}
            b = substitute([a], u)[0]
            keep.append(bnot(b) if l.op == "bnot" else b)
        g = band(*keep, *rest)
        if g is f:
            return f
        f = g
    return f      


def rebuild(t, a):
    op = t.op
    if op == "extract":
        return extract(t.x[0], t.x[1], a[0])
    if op == "zext":
        return zext(a[0], t.w)
    if op == "sext":
        return sext(a[0], t.w)
    if op == "uf":
        return mk("uf", tuple(a), t.w, t.x)
    if t.w == -1 and op == "ite":
        return a[1] if a[0] is TRUE or a[1] is a[2] else a[2] if a[0] is FALSE else mk("ite", tuple(a), -1)
    if op == "mloop":
        return mk("mloop", tuple(a), -1, t.x)
    f = _ctor[op]
    return f(*a)


_ctor = dict(bnot=bnot, band=band, bor=bor, biff=biff, bite=bite, ite=ite, eq=eq, ult=ult, slt=slt, add=add, sub=sub,
             mul=mul, udiv=udiv, urem=urem, shl=shl, lshr=lshr, ashr=ashr, concat=concat, clz=clz, ctz=ctz,
             popcnt=popcnt, select=select, store=store)
_ctor["and"] = and_
_ctor["or"] = or_
_ctor["xor"] = xor
_ctor["not"] = not_
