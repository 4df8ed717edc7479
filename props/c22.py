"""C22: hexadecimal float text.

The parser of digits is proved, for text of any length, to compute the final state of a reference
automaton (one step per byte); rounding to the target is proved for every significand, exponent
and rounding mode; classification of the text is proved over the contract of the two."""
from irvc.frame import *
from fractions import Fraction
from irvc import fp, loops
from irvc.symex import Obj, Ptr
from irvc.llparse import ity, PTR

K = lambda v: const(v, 64)
MODES = [(0, fp.RNE), (1, fp.RTN), (2, fp.RTP), (3, fp.RTZ)]
FMTS = [fp.F16, fp.F32, fp.F64, fp.F128]
LIMIT = 1 << 28         # bytes of text; beyond, the source says that the exponent may overflow
HF = r"libm::math::support::hex_float::"

# reference automaton: (phase, significand, exponent, fraction, some digits, lost digits, exponent sign, exponent digits, some exponent digits)
# phase 0: digits, 1: after 'p', 2: in the exponent, 3: malformed
STATE = [("phase", 2), ("sig", 128), ("exp", 64), ("point", 1), ("some", 1), ("lost", 1), ("neg", 1), ("pexp", 32), ("psome", 1)]
START = (0, 0, 0, 0, 0, 0, 0, 0, 0)


def at(a):
    """state before the byte at address a"""
    return [uf("hex." + n, w, a) for n, w in STATE]


def step(st, c):
    phase, sig, exp, point, some, lost, neg, pexp, psome = st
    is_ = lambda s: bor(*[eq(c, const(ord(x), 8)) for x in s])
    rng = lambda a, b: band(ule(const(ord(a), 8), c), ule(c, const(ord(b), 8)))
    dec = rng("0", "9")
    hexd = bor(dec, rng("a", "f"), rng("A", "F"))
    d = ite(dec, sub(c, const(48, 8)), and_(add(c, const(9, 8)), const(15, 8)))
    ph = [eq(phase, const(k, 2)) for k in range(4)]
    room = eq(extract(127, 124, sig), const(0, 4))
    digit = band(ph[0], hexd)
    sign = band(ph[1], is_("+-"))
    exd = band(bor(ph[1], ph[2]), dec)
    one = const(1, 1)
    nphase = ite(ph[0], ite(bor(hexd, band(is_("."), eq(point, const(0, 1)))), const(0, 2), ite(is_("pP"), const(1, 2), const(3, 2))),
                 ite(bor(sign, exd), const(2, 2), const(3, 2)))
    nexp = add(exp, sub(ite(room, K(0), K(4)), ite(eq(point, one), K(4), K(0))))
    p10 = add(mul(zext(pexp, 64), K(10)), zext(d, 64))
    return [nphase,
            ite(band(digit, room), or_(shl(sig, const(4, 128)), zext(d, 128)), sig),
            ite(digit, nexp, exp),
            ite(band(ph[0], is_(".")), one, point),
            ite(digit, one, some),
            ite(band(digit, bnot(room), ne(d, const(0, 8))), one, lost),
            ite(band(sign, is_("-")), one, neg),
            ite(exd, ite(ult(K(mask(32)), p10), const(mask(32), 32), trunc(p10, 32)), pexp),
            ite(exd, one, psome)]


def later(st, fin):
    """what a state says of every later one (each by induction over the steps, which are obligations)"""
    keep = [1, 2, 3, 4, 5]
    return [implies(eq(st[0], const(3, 2)), eq(fin[0], const(3, 2))),
            implies(ne(st[0], const(0, 2)), band(ne(fin[0], const(0, 2)), *[eq(fin[k], st[k]) for k in keep])),
            implies(ule(const(2, 2), st[0]), band(ule(const(2, 2), fin[0]), eq(fin[6], st[6])))]


# ------------------------------------------------------------------ reference on concrete text

def ref_text(b):
    """None if malformed, else (significand, exponent) exactly"""
    sig = exp = pexp = 0
    i, point, some = 0, False, False
    while i < len(b):
        c = b[i]
        i += 1
        if c == 46:
            if point:
                return None
            point = True
        elif c in b"pP":
            break
        elif chr(c) in "0123456789abcdefABCDEF":
            sig = sig * 16 + int(chr(c), 16)
            exp -= 4 * point
            some = True
        else:
            return None
    else:
        return None
    t = b[i:]
    neg = t[:1] == b"-"
    if t[:1] in (b"-", b"+"):
        t = t[1:]
    if not some or not t or any(not 48 <= c <= 57 for c in t):
        return None
    return sig, exp + (-1 if neg else 1) * int(t.decode())


def ref_round(f, sig, exp, rm):
    if sig == 0:
        return 0, 0
    lim = 4 * f.emax + 1000
    exp += max(0, sig.bit_length() - 400)
    sig = sig >> max(0, sig.bit_length() - 400) | (1 if sig & mask(max(0, sig.bit_length() - 400)) else 0)
    v = Fraction(sig) * Fraction(2) ** max(-lim, min(lim, exp))
    r = fp.rnd(f, v, 0, rm)
    over = r == f.inf or (r == f.inf - 1 and v >= fp.val(f, f.inf - 1) + Fraction(2) ** (f.emax - f.mb))
    inexact = over or fp.val(f, r) != v
    return r, (4 if over else 0) | (8 if inexact and r < 1 << f.mb else 0) | (16 if inexact else 0)


def ref_any(f, rm, b):
    neg = b[:1] == b"-"
    t = b[1:] if b[:1] in (b"-", b"+") else b
    if t.lower() == b"inf":
        r = f.inf, 0
    elif t.lower() == b"nan":
        r = f.inf | f.signbit >> (f.w - f.mb), 0
    elif t[:2] in (b"0x", b"0X"):
        p = ref_text(t[2:])
        if p is None:
            return None
        r = ref_round(f, p[0], p[1], {fp.RTP: fp.RTN, fp.RTN: fp.RTP}.get(rm, rm) if neg else rm)
    else:
        return None
    return r[0] ^ (f.signbit if neg else 0), r[1]


def text(rng):
    pick = lambda s, n: "".join(rng.choice(s) for _ in range(n))
    if rng.randrange(12) == 0:
        return pick("0xXpP+-.aAfFiInN129 g\x80", rng.randrange(0, 9)).encode("latin1")
    if rng.randrange(20) == 0:
        return (rng.choice(["", "+", "-"]) + rng.choice(["inf", "nan", "INF", "NaN", "Inf", "in", "nann", "infp1"])).encode()
    n = rng.choice([1, 2, 4, 6, 8, 14, 15, 28, 29, 30, 31, 32, 33, 34, 40, 60])
    d = rng.choice(["0123456789abcdefABCDEF", "08", "0001", "f", "7f"])
    m = pick(d, rng.randrange(0, n + 1))
    m += pick("0" if rng.randrange(2) else d, n - len(m)) + (pick(d, 1) if rng.randrange(2) else "")
    k = rng.randrange(0, len(m) + 1)
    if rng.randrange(2):
        m = m[:k] + "." + m[k:]
    f = rng.choice(FMTS)
    e = rng.choice([0, f.emax, f.emin, f.emin - f.mb, f.emin - f.mb - 4, f.emax - 4 * n, 65536, 1 << 31, (1 << 32) - 1, 10 ** 11, 1 << 64]) + rng.randrange(-9, 10)
    return (rng.choice(["", "+", "-"]) + rng.choice(["0x", "0X"]) + m + rng.choice(["p", "p", "p", "P", ""]) + ["", "+"][e >= 0 and rng.randrange(2)] + str(e) + ("z" if rng.randrange(40) == 0 else "")).encode()


def contracts():
    def parse(bits, mode, t, o):
        if bits not in fp.BYW:
            return None
        if o is None:
            return True
        f = fp.BYW[bits]
        b = bytes.fromhex("" if t == "-" else t)
        want = ref_any(f, MODES[mode][1], b)
        return o == ([0] if want is None else [1, want[0], want[1]])

    def exact(bits, t, o):
        if bits not in fp.BYW:
            return None
        if o is None:
            return True
        want = ref_any(fp.BYW[bits], fp.RNE, bytes.fromhex("" if t == "-" else t))
        return o == ([0] if want is None or want[1] else [1, want[0]])

    def fmt(bits, x, o):
        f = fp.BYW.get(bits)
        if f is None or x & (f.signbit - 1) > f.inf:
            return None
        return o is None or o == [1, x]
    enc = lambda b: b.hex() or "-"
    w = lambda rng: rng.choice(FMTS).w

    def patt(rng):
        f = rng.choice(FMTS)
        return [f.w, corner(rng, f.w, f)]
    return (Contract("parse_any", [("bits", "u32"), ("round", "u8"), ("text", "text")], parse, "hexparse", False, lambda rng: [w(rng), rng.randrange(4), enc(text(rng))]),
            Contract("parse_hex_exact", [("bits", "u32"), ("text", "text")], exact, "hexexact", False, lambda rng: [w(rng), enc(text(rng))]),
            Contract("formatting", [("bits", "u32"), ("x", "u128")], fmt, "hexfmt", False, patt))


# ------------------------------------------------------------------ contracts

def sat_mem(a, timeout=60):
    return solve.sat([term.propagate(term.expand([band(*a)])[0])], timeout=timeout, tool="cadical")


class Text:
    """symbolic text of any length in flat memory"""

    def __init__(self, n=None):
        self.flat = Obj("memory", None, 1, "flat")
        self.M = var("M0", -1)
        self.s, self.n = var("s", 64), var("n", 64) if n is None else K(n)
        self.end = add(self.s, self.n)
        self.pre = [ult(K(4095), self.s), ult(self.s, K(1 << 62)), ult(self.n, K(LIMIT))]

    def byte(self, a):
        return select(self.M, a)

    def reads(self, c, g, lo, n):
        off = sub(lo, self.s)
        c.oblige("memory", "read outside the text", g, band(ult(off, self.n), ule(add(off, K(n)), self.n)))


def emit(C, name, con, c, pre, g, posts, timeout=120, cases=(), split=(), gen=None):
    pre = pre + c.assumed
    for o in c.obs:
        if o.res:
            C.vcs.append(VC(f"{name}: {o.name}", o.fn, o.kind, None, con))
            C.vcs[-1].res = o.res
    for k, n in c.loops.items():
        C.cuts[k] = C.cuts.get(k, 0) + n
    obs = [o for o in c.obs if not o.res and o.bad is not FALSE]

    def vc(label, kind, asserts, n=1):
        a = [term.propagate(term.expand([band(*asserts)])[0])]
        v = VC(f"{name}: {label}", name, kind, a, con, n=n, timeout=timeout)
        v.tool = "cadical"
        C.vcs.append(v)
        return v
    vc("no panic, no undefined operation, reads within the text", "safety", pre + [bor(*[o.bad for o in obs])], max(1, len(obs))).obs = obs
    vc("returns", "returns", pre + c.facts + [bnot(bor(g, *c.cutoff))])
    if cases:
        vc("case split exhaustive", "split", pre + [bnot(bor(*[x for _, x in cases]))])
    for lab, e in posts:
        for cl, cc in cases if lab in split else [("", TRUE)]:
            v = vc(lab + cl, "post", pre + [cc, g, bnot(e)])
            if gen:
                v.cons, v.goals, v.gen, v.mulabs, v.limit = pre + [cc], [g, bnot(e)], gen, None, 2000
    r = solve.sat([term.expand([band(*pre, g)])[0]], timeout=60, tool="cadical")
    if r.st == "sat":
        C.covers += 1
    else:
        C.errors.append(f"{name}: precondition not shown satisfiable: {r.st}")


def out(c, mem, o):
    """(is error, first word, second word) of a Result with a 16-byte value first"""
    return ne(c.rd(mem[o], 0, 8), K(0)), c.rd(mem[o], 16, 16), c.rd(mem[o], 32, 4)


def digits(C, con, size=None):
    """size: bounded stand-in for text of this length"""
    T_ = Text(size)
    pre = T_.pre
    fin = at(T_.end)
    pre = pre + [eq(v, const(k, v.w)) for v, k in zip(at(T_.s), START)]

    def defs(x):
        st, nx = at(x), at(add(x, K(1)))
        return [eq(a, b) for a, b in zip(nx, step(st, T_.byte(x)))] + later(nx, fin) + later(st, fin)
    b8 = lambda v, u: eq(v, zext(u, 8))
    one = const(1, 1)

    def inv1(args, entry, cur, gh):
        p, n, sig, exp, lost, some, point = cur
        st = at(p)
        off = shl(sub(p, T_.s), K(2))
        return [eq(add(p, n), T_.end), ule(T_.s, p), ule(n, T_.n), eq(st[0], const(0, 2)), eq(sig, st[1]), eq(sext(exp, 64), st[2]),
                b8(point, st[3]), b8(some, st[4]), b8(lost, st[5]), eq(st[6], const(0, 1)), eq(st[7], const(0, 32)), eq(st[8], const(0, 1)),
                sle(sext(exp, 64), off), sle(neg(off), sext(exp, 64))]

    def inv2(args, entry, cur, gh):
        p, n, pexp, some = cur
        st, s0 = at(p), at(entry[0])
        sign = bor(eq(T_.byte(p), const(43, 8)), eq(T_.byte(p), const(45, 8)))
        return [eq(add(p, n), T_.end), ule(T_.s, p), ule(n, T_.n), ne(st[0], const(3, 2)), implies(eq(st[0], const(0, 2)), eq(n, K(0))),
                implies(band(eq(st[0], const(1, 2)), ne(n, K(0))), bnot(sign)), eq(pexp, st[7]), b8(some, st[8]),
                eq(st[6], s0[6])] + [eq(st[k], s0[k]) for k in (1, 2, 3, 4, 5)]
    two = lambda a, e, cur: defs(cur[0]) + defs(add(cur[0], K(1)))
    mk = lambda nm, roles, inv: loops.Inv(nm, roles, inv, lambda a, e, cur: cur[1], engine=sat_mem, timeout=60, defs=two)
    i1 = mk("digits", [(64, 0), (64, 0), (128, 0), (32, 0), (8, 0), (8, 0), (8, 0)], inv1)
    i2 = mk("exponent", [(64, 0), (64, 0), (32, 0), (8, 0)], inv2)
    so = Obj("sret", 48, 16, "param")
    kw = {"loops": [(HF + "parse_hex", i1), (HF + "parse_hex", i2)], "max_unroll": 2} if size is None else {"unroll": True}
    c, (ret, mem, g) = C.symex(C.module("libm"), HF + "parse_hex", [ptr(so, K(0)), ptr(T_.flat, T_.s), T_.n], {so: {}, T_.flat: T_.M}, pre=pre, flat=T_.flat, whole=[T_.s, T_.n], hooks={"flat_read": T_.reads}, **kw)
    for k in range(size or 0):
        pre = pre + defs(add(T_.s, K(k)))
    err, sig, exp = out(c, mem, so)
    ok = band(eq(fin[0], const(2, 2)), eq(fin[4], one), eq(fin[8], one))
    e = add(fin[2], ite(eq(fin[6], one), neg(zext(fin[7], 64)), zext(fin[7], 64)))
    lo, hi = K(-(1 << 31)), K((1 << 31) - 1)
    e = ite(slt(e, lo), lo, ite(slt(hi, e), hi, e))
    emit(C, "parse_hex" + (f" [{size} bytes]" if size is not None else ""), con, c, pre, g, [
        ("error exactly for malformed text", biff(err, bnot(ok))),
        ("significand with lost digits marked", implies(ok, eq(sig, or_(fin[1], zext(fin[5], 128))))),
        ("exponent, limited to its range", implies(ok, eq(sext(exp, 64), e)))])


def automaton(C, con):
    """the inductive facts used of the automaton"""
    st, f = [var("st." + n, w) for n, w in STATE], [var("fin." + n, w) for n, w in STATE]
    nx = step(st, var("c", 8))
    for k, (a, b, d) in enumerate(zip(later(st, st), later(nx, f), later(st, f))):
        C.vcs.append(VC(f"automaton: fact {k} holds at the start", "automaton", "lemma", [bnot(a)], con))
        C.vcs.append(VC(f"automaton: fact {k} of the next state carries over to this one", "automaton", "lemma", [band(*later(nx, f)), bnot(d)], con))


def value(f, mode, rm):
    def oracle(sig, exp, o):
        return o is None or o == [1, *ref_round(f, sig, sx(exp, 32), rm)]

    def samples(rng):
        n = rng.randrange(1, 129)
        sig = rng.choice([rng.getrandbits(n), mask(n), 1 << (n - 1), mask(n) ^ mask(rng.randrange(n)), (1 << (n - 1)) | 1 << rng.randrange(n)]) or 1
        e = rng.choice([f.emax + 1, f.emin, f.emin - f.mb, 0]) - n + rng.randrange(-3, 4)
        return [sig, (rng.choice([e, e, e, e, 65536 + e, (1 << 31) - 1 - rng.randrange(200), -(1 << 31) + rng.randrange(200)])) & mask(32)]
    return Contract(f"parse_finite {f.name} {rm}", [("sig", "u128"), ("exp", "i32")], oracle, f"hexvalue {f.w:x} {mode}", False, samples)


def rounding(C, con, f, mode, rm):
    con = value(f, mode, rm)
    so, msg = Obj("sret", 48, 16, "param"), Obj("message", 8, 1, "param")
    bad, sig, exp = var("malformed", 0), var("sig", 128), var("exp", 32)

    def parsed(ctx, name, args, i, g, mem):
        """proved above; here: anything"""
        r = args[0]
        w = lambda k, t, v: ctx.store(g, mem, Ptr([(c, o, add(x, K(k))) for c, o, x in r.alts]), t, v)
        mem = w(0, ity(64), b2bv(bad, 64))
        mem = w(8, PTR, ptr(msg, K(0)))
        mem = w(16, ity(128), ite(bad, const(1, 128), sig))
        mem = w(32, ity(32), exp)
        return None, mem, g
    T_ = Text()
    c, (ret, mem, g) = C.symex(C.module("libm"), HF + "parse_finite", [ptr(so, K(0)), ptr(T_.flat, T_.s), T_.n, const(f.w, 32), const(f.mb, 32), const(mode, 8)],
                               {so: {}, msg: {}, T_.flat: T_.M}, pre=T_.pre, flat=T_.flat, hooks={"flat_read": T_.reads}, contracts={HF + "parse_hex": parsed})
    err, v, st = out(c, mem, so)
    st = trunc(st, 8)
    r, inx, under, over = fp.round_pack(f, FALSE, exp, sig, rm, want="inexact")
    W = 16 if f.w > 32 else 64
    tiny = band(inx, ult(r, const(1 << f.mb, f.w)))
    want = or_(or_(ite(over, const(4, 8), const(0, 8)), ite(tiny, const(8, 8), const(0, 8))), ite(inx, const(16, 8), const(0, 8)))
    emit(C, f"parse_finite {f.name} {rm}", con, c, T_.pre, g, [
        ("errors passed on", biff(err, bad)),
        ("rounded value", implies(bnot(bad), eq(v, zext(r, 128)))),
        ("status", implies(bnot(bad), eq(st, want)))],
        cases=[(f" [leading bit {k} to {k + W - 1}]", band(eq(lshr(sig, const(k + W, 128)), const(0, 128)) if k + W < 128 else TRUE, ne(lshr(sig, const(k, 128)), const(0, 128)))) for k in range(0, 128, W)]
        + [(" [zero]", eq(sig, const(0, 128)))], split=["rounded value"], gen=lambda rng: dict(zip(("sig", "exp"), con.samples(rng)), malformed=0))


def classify(C, con, f, mode):
    T_ = Text()
    so, msg = Obj("sret", 48, 16, "param"), Obj("message", 8, 1, "param")
    seen = []

    def finite(ctx, name, args, i, g, mem):
        """proved above; here: an unknown function of text and rounding mode below 2^(width - 1)"""
        r, p, n, w_, s_, rm = args
        ctx.oblige("pre", "rounding to the format requested", g, band(eq(w_, const(f.w, 32)), eq(s_, const(f.mb, 32))))
        a = (ctx.p2i(p), n, rm)
        w = lambda k, t, v: ctx.store(g, mem, Ptr([(c, o, add(x, K(k))) for c, o, x in r.alts]), t, v)
        mem = w(0, ity(64), zext(uf("finite.err", 1, *a), 64))
        mem = w(8, PTR, ptr(msg, K(0)))
        mem = w(16, ity(128), ite(eq(uf("finite.err", 1, *a), const(1, 1)), const(1, 128), zext(uf("finite", f.w - 1, *a), 128)))
        mem = w(32, ity(8), uf("finite.status", 8, *a))
        return None, mem, g
    c, (ret, mem, g) = C.symex(C.module("libm"), HF + "parse_any", [ptr(so, K(0)), ptr(T_.flat, T_.s), T_.n, const(f.w, 32), const(f.mb, 32), const(mode, 8)],
                               {so: {}, msg: {}, T_.flat: T_.M}, pre=T_.pre, flat=T_.flat, hooks={"flat_read": T_.reads}, contracts={HF + "parse_finite": finite})
    err, v, st = out(c, mem, so)
    st = trunc(st, 8)
    b = lambda a, s: bor(*[eq(T_.byte(a), const(ord(x), 8)) for x in s])
    some = ult(K(0), T_.n)
    neg_ = band(some, b(T_.s, "-"))
    sg = band(some, b(T_.s, "+-"))
    p, n = ite(sg, add(T_.s, K(1)), T_.s), ite(sg, sub(T_.n, K(1)), T_.n)
    word = lambda w: band(eq(n, K(3)), *[b(add(p, K(k)), x.lower() + x.upper()) for k, x in enumerate(w)])
    hexa = band(ule(K(2), n), b(p, "0"), b(add(p, K(1)), "xX"))
    rm = ite(neg_, const({1: 2, 2: 1}.get(mode, mode), 8), const(mode, 8))
    a = (add(p, K(2)), sub(n, K(2)), rm)
    ferr = eq(uf("finite.err", 1, *a), const(1, 1))
    sgn = ite(neg_, const(f.signbit, 128), const(0, 128))
    nan = const(f.inf | f.signbit >> (f.w - f.mb), 128)
    z = const(0, 8)
    emit(C, f"parse_any {f.name} mode {mode}", con, c, T_.pre, g, [
        ("error exactly for malformed text", biff(err, bnot(bor(word("inf"), word("nan"), band(hexa, bnot(ferr)))))),
        ("infinity", implies(word("inf"), band(eq(v, xor(const(f.inf, 128), sgn)), eq(st, z)))),
        ("not a number", implies(word("nan"), band(eq(v, xor(nan, sgn)), eq(st, z)))),
        ("finite value with its sign", implies(band(hexa, bnot(ferr)), band(eq(v, xor(zext(uf("finite", f.w - 1, *a), 128), sgn)), eq(st, uf("finite.status", 8, *a)))))])


def exactly(C, con):
    T_ = Text()
    so, msg = Obj("sret", 48, 16, "param"), Obj("message", 8, 1, "param")
    bad, v0, s0 = var("malformed", 0), var("value", 128), var("status", 8)

    def anyway(ctx, name, args, i, g, mem):
        r = args[0]
        ctx.oblige("pre", "round to nearest", g, eq(args[5], const(0, 8)))
        w = lambda k, t, v: ctx.store(g, mem, Ptr([(c, o, add(x, K(k))) for c, o, x in r.alts]), t, v)
        mem = w(0, ity(64), b2bv(bad, 64))
        mem = w(8, PTR, ptr(msg, K(0)))
        mem = w(16, ity(128), ite(bad, const(1, 128), v0))
        mem = w(32, ity(8), s0)
        return None, mem, g
    pre = T_.pre + [bor(*[eq(s0, const(k, 8)) for k in (0, 16, 20, 24)])]       # the statuses parse_finite gives
    c, (ret, mem, g) = C.symex(C.module("libm"), HF + "parse_hex_exact", [ptr(so, K(0)), ptr(T_.flat, T_.s), T_.n, var("bits", 32), var("sig_bits", 32)],
                               {so: {}, msg: {}, T_.flat: T_.M}, pre=pre, flat=T_.flat, hooks={"flat_read": T_.reads}, contracts={HF + "parse_any": anyway})
    err, v, _ = out(c, mem, so)
    emit(C, "parse_hex_exact", con, c, pre, g, [("error exactly for malformed text and values not representable", biff(err, bor(bad, ne(s0, const(0, 8))))),
                                               ("value", implies(bnot(err), eq(v, v0)))])


def goals(C):
    par, exa, fmt = contracts()
    C.trust.append(f"text shorter than 2^28 bytes")
    C.trust.append("limiting the exponent to 32 bits and marking lost digits in the last of 125 or more significant bits leave the rounded value unchanged (argument in DESIGN.md)")

    def under(name, con, fn, *a):
        C.under_contract.append(name)
        try:
            fn(C, con, *a)
            return True
        except (Unsupported, LookupError, RecursionError) as e:
            C.vcs.append(VC(f"{name}: translation", name, "translate", None, con))
            C.vcs[-1].res = solve.Result("unknown", info=f"{type(e).__name__}: {e}")
    automaton(C, par)
    try:
        digits(C, par)
        C.under_contract.append("parse_hex")
    except (Unsupported, LookupError, RecursionError) as e:
        # the loops are not of the shape the invariants speak of: short text only
        for k in range(6):
            under(f"parse_hex [{k} bytes]", par, digits, k)
        C.bounded.append(f"digits and exponent of text of at most 5 bytes, loops unrolled: no invariant found for the loops of parse_hex ({e})")
    for f in FMTS:
        for mode, rm in MODES:
            under(f"parse_finite {f.name} {rm}", par, rounding, f, mode, rm)
    for f in FMTS:
        for mode, _ in MODES:
            under(f"parse_any {f.name} mode {mode}", par, classify, f, mode)
    under("parse_hex_exact", exa, exactly)
    rng = random.Random(SEED * 7919 + 22)
    batch = [(con, con.samples(rng)) for con in (par, exa, fmt) for _ in range(6000)]
    for (con, b), o in zip(batch, build.replay([line(con, b) for con, b in batch], False, timeout=100)):
        o = build.parse_out(o)
        if judge(con, b, o) is False:
            v = VC(f"{con.name}: sampled arguments", con.name, "sample", None, con)
            v.res = solve.Result("unknown", info="fails on the real code")
            C.vcs.append(v)
            C.hit = (v, b, o)
            raise Found
    C.bounded.append(f"{len(batch)} sampled calls of parsing, exact parsing and formatting followed by parsing; only evidence for formatting")
