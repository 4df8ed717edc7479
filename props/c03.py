"""C03: unsigned integer division and remainder are exact for every non-zero divisor."""
from irvc.frame import *
from irvc.loops import Inv
from irvc.callee import norm_shift
from irvc.symex import Obj, ptr, C64, Unsupported, NULL
from irvc.llparse import ity


def lit(v, w):
    return const(v, w)


def binary_long(w):
    """shift-subtract loop on one word: with j = s - i steps done, the word is m * 2^j + q where
    entry = q * d * 2^i + m, m < d * 2^i; the code keeps only the word"""
    W = 3 * w + 2
    Z = lambda x: zext(x, W) if x.w < W else trunc(x, W)
    lb = w.bit_length() - 1

    def parts(args, entry, cur):
        n, d = args
        duo0, s = entry
        duo, i = cur
        return Z(d), Z(duo0), Z(s), Z(duo), Z(i)

    def inv(args, entry, cur, gh):
        d, e, s, duo, i = parts(args, entry, cur)
        q, m = Z(gh[0]), Z(gh[1])
        j = sub(s, i)
        di = shl(d, i)
        return [ule(i, s),
                ult(m, di), ult(q, shl(lit(1, W), j)),
                eq(duo, add(shl(m, j), q)),
                eq(e, add(mul(q, di), m))]

    def step(args, entry, cur, gh, nxt):
        d, e, s, duo, i = parts(args, entry, cur)
        q, m = gh
        dn = shl(d, sub(i, lit(1, W)))
        big = ule(dn, m)
        q2 = add(q, q)
        return [(big, [add(q2, lit(1, W)), sub(m, dn)]), (bnot(big), [q2, m])]
    return Inv(f"binary_long{w}", [(w, None), (64, lb)], inv, lambda a, e, c: c[1], [(W, w), (W, w)],
               lambda a, e: [lit(0, W), Z(e[0])], step)


def log2(t, w):
    """exponent of a power of two, from its term"""
    if t.op == "const" and t.x and t.x & (t.x - 1) == 0:
        return lit(t.x.bit_length() - 1, w)
    if t.op == "shl" and t.args[0].op == "const" and t.args[0].x == 1:
        return fit(t.args[1], w)
    if t.op == "zext":
        return log2(t.args[0], w)
    return fit(sub(lit(t.w - 1, t.w), clz(t)), w)


def fit(x, w):
    return zext(x, w) if x.w < w else trunc(x, w)


def shift_subtract(w):
    """loop on dividend, shifted divisor, its power of two, and partial quotient (half width):
    pow = 2^t, div = d * 2^t, quo = K * 2^(t+1), entry = quo * d + duo, d <= duo < 2 * div, and the
    difference duo - div is representable"""
    h = w // 2
    W = 3 * w + 2
    Z = lambda x: fit(x, W)
    one = lit(1, W)
    lb = h.bit_length() - 1
    top = lit(1 << (w - 1), W)

    def inv(args, entry, cur, gh):
        d = Z(args[1])
        duo, div, pw, quo = map(Z, cur)
        t, K = gh
        return [eq(pw, shl(one, t)), eq(div, shl(d, t)), eq(quo, shl(shl(K, t), one)),
                eq(Z(entry[0]), add(mul(quo, d), duo)),
                ule(d, duo), ult(duo, add(div, div)),
                ule(div, add(duo, top)), ult(duo, add(div, top))]

    def step(args, entry, cur, gh, nxt):
        duo, div, pw, quo = map(Z, cur)
        t, K = gh
        big = ule(div, duo)
        t2 = sub(t, one)
        return [(big, [t2, add(add(K, K), one)]), (bnot(big), [t2, add(K, K)])]
    return Inv(f"shift_subtract{w}", [(w, None), (w, None), (h, None), (h, None)], inv, lambda a, e, c: c[2],
               [(W, lb), (W, h)], lambda a, e: [log2(e[2], W), lit(0, W)], step,
               need=lambda a, e: e[3].op == "const" and e[3].x == 0)


def undersubtract(w):
    """loop on what is left of the dividend, its leading zeros and the partial quotient:
    entry = quo * d + duo, and duo has more bits than d and than half a word, fewer than a word unless it is
    a quarter of a word longer than d"""
    W = 2 * w + 2
    Z = lambda x: fit(x, W)

    def inv(args, entry, cur, gh):
        d = args[1]
        duo, quo, lz = cur
        return [eq(Z(lz), Z(clz(duo))), ult(Z(lz), Z(clz(d))), ult(lz, lit(w // 2, 32)),
                eq(Z(args[0]), add(mul(Z(quo), Z(d)), Z(duo))),
                bor(ule(add(Z(lz), lit(w // 4, W)), Z(clz(d))), ult(duo, lit(1 << (w - 1), w)))]
    return Inv(f"undersubtract{w}", [(w, None), (w, None), (32, None)], inv, lambda a, e, c: c[0],
               need=lambda a, e: e[1].op == "const" and e[1].x == 0)


NM = {32: "si", 64: "di", 128: "ti"}


def ensures(w):
    Z = lambda x: zext(x, 2 * w)
    return lambda n, d, q, r: [("quotient * divisor + remainder = dividend", eq(add(mul(Z(q), Z(d)), Z(r)), Z(n))), ("remainder below divisor", ult(r, d))]


def oracle(n, d, out):
    if d == 0:
        return None
    return True if out is None else tuple(out) == divmod(n, d)


def nonzero(w):
    return lambda n, d: [bnot(eq(d, lit(0, w)))]


def divrem(ck, cfg, w, loops, name=None, **kw):
    """whole function with the remainder stored through a pointer"""
    ck.contract(cfg, name or f"__udivmod{NM[w]}4", [("n", f"u{w}"), ("d", f"u{w}"), ("rem", ("out", w // 8))], ensures(w), oracle,
                requires=nonzero(w), loops=loops, engine="int", **kw)


def internal(ck, cfg, w, loops, **kw):
    """Contract of the function all entry points of one width share: pair of quotient and remainder.
    Returns the contract to use in its callers, or {} where there is no such function."""
    mod = ck.module(cfg)
    pat = rf"(\w+::)*u{w}_div_rem"
    b = w // 8
    sret = [(0, b), (b, b)]
    try:
        f = mod.fn(mod.find(pat))
        mem = len(f.params) == 3
        for n, d in ((100, 7), (3, 5), (1 << (w - 1) | 5, 3)):
            so = Obj("sret", 64, 16, "param")
            c, (ret, m, g) = ck.symex(mod, pat, ([ptr(so, C64(0))] if mem else []) + [lit(n, w), lit(d, w)], {so: {}})
            if mem:
                ret = tuple(c.rd(m[so], o, k) for o, k in sret)
            if len(ret) != 2 or ret[0] is not lit(n // d, w) or ret[1] is not lit(n % d, w):
                return {}
    except (Unsupported, LookupError, TypeError, AttributeError):
        return {}
    ck.contract(cfg, f"u{w}_div_rem", [("n", f"u{w}"), ("d", f"u{w}")], lambda n, d, r: ensures(w)(n, d, *r), oracle,
                requires=nonzero(w), loops=loops, engine="int", pat=pat, sret=sret, replay=f"__udivmod{NM[w]}4", **kw)

    def use(ctx, name, args, i, g, mem):
        # division with remainder is unique, so what the contract says determines both results
        n, d = args[-2:]
        ctx.oblige("precondition", f"u{w}_div_rem", g, bnot(eq(d, lit(0, w))))
        q, r = udiv(n, d), urem(n, d)
        ctx.contract_used[f"u{w}_div_rem"] = ctx.contract_used.get(f"u{w}_div_rem", 0) + 1
        if len(args) == 2:
            return (q, r), mem, g
        for o, x in ((0, q), (b, r)):
            mem = ctx.store(g, mem, ctx.padd(args[0], C64(o)), ity(w), x)
        return None, mem, g
    return {pat: use}


def proved(ck, cfg="cb"):
    """contracts of the shared functions of all widths, with the loops to cut where there are none"""
    out, cut = {}, []
    for w in (32, 64, 128):
        if w == 128:
            loops, kw = ([(r".*", undersubtract(128))] if not cfg.endswith("_arch") else []), {"paths": 40}
        else:
            loops, kw = [(rf".*u{w}_(div_rem|long)", binary_long(w))], {"contracts": norm_shift(ck, w)}
        h = internal(ck, cfg, w, loops, **kw)
        out.update(h)
        if not h:
            out.update(kw.get("contracts", {}))
            cut += loops
    return out, cut


def entries(ck, cfg, con, cut):
    for w in (32, 64, 128):
        if cfg.endswith("_arch") and w < 128:
            continue
        t, a = f"u{w}", [("n", f"u{w}"), ("d", f"u{w}")]
        kw = dict(requires=nonzero(w), contracts=con, loops=cut, engine="int")
        if cut and w == 128:
            kw["paths"] = 40
        n = NM[w]
        divrem(ck, cfg, w, cut, contracts=con)
        ck.contract(cfg, f"__udivmod{n}4", a, lambda n, d, q: eq(q, udiv(n, d)), lambda n, d, o: None if d == 0 else True if o is None else o[0] == n // d,
                    mkargs=lambda n, d: [n, d, NULL], replay=f"__udivmod{n}4.none", **kw)
        ck.contract(cfg, f"__udiv{n}3", a, lambda n, d, q: eq(q, udiv(n, d)), lambda n, d, o: None if d == 0 else True if o is None else o[0] == n // d, **kw)
        ck.contract(cfg, f"__umod{n}3", a, lambda n, d, r: eq(r, urem(n, d)), lambda n, d, o: None if d == 0 else True if o is None else o[0] == n % d, **kw)


def goals(ck):
    for cfg in ("cb", "cb_arch"):
        if cfg == "cb":
            con, cut = proved(ck, cfg)
        else:
            con, cut = internal(ck, cfg, 128, [], paths=40), []
        entries(ck, cfg, con, cut)
    D = "driver_div"
    if ck.safety_only or not ck.driver(D):
        return
    n32, n64 = norm_shift(ck, 32), norm_shift(ck, 64)
    divrem(ck, D, 32, [(r".*u32_long", binary_long(32))], "div_u32_long", contracts=n32)
    divrem(ck, D, 64, [(r".*u64_long", binary_long(64))], "div_u64_long", contracts=n64)
    divrem(ck, D, 64, [(r".*", shift_subtract(64))], "div_u64_delegate", contracts=n32)
    divrem(ck, D, 128, [(r".*", shift_subtract(128))], "div_u128_delegate", contracts=n64)
    divrem(ck, D, 128, [(r".*", shift_subtract(128))], "div_u128_sparc", contracts=n64)
    divrem(ck, D, 64, [], "div_u64_asymmetric")
