"""C23: elementary functions are total, propagate NaN and keep exact symmetries.

Native float operations are known by contract only (irvc/absfp.py); integer and bit-level code,
comparisons, conversions to integers and every table access are exact."""
from irvc.frame import *
from irvc import absfp

ONE = "acos acosh asin asinh atan atanh cbrt cos cosh erf erfc exp exp10 exp2 expm1 j0 j1 y0 y1 lgamma lgamma_r log log10 log1p log2 sin sincos sinh tan tanh tgamma".split()
TWO = ["atan2", "hypot", "pow"]
ODD = "asin asinh atan atanh cbrt erf sin sinh tan tanh j1 atan2".split()
EVEN = "cos cosh j0 hypot".split()
# absence of panics not within reach of the contracts: sampled instead
SAMPLED = {"pow": "the size of its intermediate results needs an error analysis", "hypot": "its correction loop needs an error analysis"}

# symmetry not within reach: equality of the two executions rests on rounding facts the contracts do not give
OPEN = set("asin asinf atan2 atan2f cbrt cbrtf cos cosf j1 j1f sinf sincos sincosf tan tanf".split())


def single(n):
    return n[:-2] + "f_r" if n.endswith("_r") else n + "f"


def funcs():
    for n in ONE + TWO:
        for f in (fp.F64, fp.F32):
            yield n, (n if f is fp.F64 else single(n)), f, 2 if n in TWO else 1


def isn(f, v):
    return v & (f.signbit - 1) > f.inf


def nan_rule(n, f):
    """(conditions under which the results must be NaN) of terms and of integers"""
    one, zero = f.one, 0

    def must(xs):
        nan = bor(*[fp.isnan(f, x) for x in xs])
        if n == "pow":
            return band(nan, bnot(eq(xs[0], const(f.one, f.w))), bnot(fp.iszero(f, xs[1])))
        if n == "hypot":
            return band(nan, bnot(bor(*[fp.isinf(f, x) for x in xs])))
        return nan

    def musti(xs):
        nan = any(isn(f, x) for x in xs)
        if n == "pow":
            return nan and xs[0] != f.one and xs[1] & (f.signbit - 1) != 0
        if n == "hypot":
            return nan and all(x & (f.signbit - 1) != f.inf for x in xs)
        return nan
    return must, musti


def parts(n, ret):
    """the float results"""
    r = list(ret) if isinstance(ret, (tuple, list)) else [ret]
    return r[:1] if n == "lgamma_r" else r


def parity(n):
    return {"sincos": (-1, 1)}.get(n) or ((-1,) if n in ODD else (1,) if n in EVEN else None)


class Model:
    """one or more executions of a function over the same operations"""

    def __init__(self, C, n, name, f, use_pow, A):
        self.C, self.n, self.name, self.f = C, n, name, f
        self.A = A
        self.mod = C.module("libm")
        self.pat = r"libm::math::\w+::" + name
        self.contracts = {r"libm::math::rem_pio2_large::rem_pio2_large": self.large, r"libm::math::floor::floorf?": self.A.floor}
        if use_pow:
            self.contracts[r"libm::math::pow(f?)::pow\1"] = self.pow

    def large(self, ctx, name, args, i, g, mem):
        """assumed: returns; 0 <= n < 8, results of magnitude below 2, all a function of the arguments"""
        xp, xn, yp, yn, e0, prec = args
        D = fn0(self.mod)
        at = lambda p, k: Ptr([(c, o, add(off, C64(8 * k))) for c, o, off in p.alts])
        n = min(o.size for _, o, _ in xp.alts) // 8
        if not isc(yn):
            raise Unsupported("rem_pio2_large with an unknown number of results")
        ctx.oblige("pre", "rem_pio2_large: 1 <= length, -3 <= exponent <= 1000, precision 0 or 1", g,
                   band(ule(C64(1), xn), ule(xn, C64(n)), sle(const(-3, 32), e0), sle(e0, const(1000, 32)), ule(prec, C64(1)), ule(add(prec, C64(1)), yn)))
        a = (xn, e0, prec) + tuple(ctx.load(g, mem, at(xp, k), D) for k in range(n))
        for k in range(yn.x):
            u = self.A.res(f"reduced{k}", fp.F64, 64, a, lambda u: ule(fp.expf(fp.F64, u), const(fp.F64.bias, 11)))
            mem = ctx.store(g, mem, at(yp, k), D, u)
        return zext(uf("reduced.n", 3, *a), 32), mem, g

    def pow(self, ctx, name, args, i, g, mem):
        """assumed: returns a function of its arguments"""
        f = fp.BYW[args[0].w]
        must, _ = nan_rule("pow", f)
        u = uf(f"pow.{f.name}", f.w, *args)
        return self.A.nan("pow", f, must(args), u, *args), mem, g

    def run(self, xs):
        C, mod = self.C, self.mod
        mem, args = {}, list(xs)
        so = None
        if len(mod.fn(C.find(mod, self.pat)).params) == len(xs) + 1:
            so = Obj("sret", 64, 16, "param")
            mem[so] = {}
            args = [ptr(so, C64(0))] + args
        c, (ret, mem2, g) = C.symex(mod, self.pat, args, mem, hooks=self.A.hooks(), contracts=self.contracts)
        if so:
            b = self.f.w // 8
            ret = (c.rd(mem2[so], 0, b), c.rd(mem2[so], b, b))
        return c, parts(self.n, ret), g


def free_results(v, tm):
    """results of operations as unknowns; that equal operands give equal results is stated only
    for the operations in which the two executions differ"""
    f = band(*v.asserts)
    ufs = [t for t in term.postorder([f] + v.own[0] + v.own[1]) if t.op == "uf"]
    sub_ = {t: term.var(f"result!{t.id}", t.w) for t in ufs}
    con = []
    for k, p in enumerate(v.own[0]):
        for j, q in enumerate(v.own[1]):
            if p.x == q.x and p.w == q.w and abs(j - k) <= 40:
                con.append(bor(eq(p, q), *[ne(x, y) for x, y in zip(p.args, q.args)]))
    return solve.sat(term.substitute([f] + con, sub_), timeout=tm, tool="cadical")


def fn0(mod):
    return mod.fn(mod.find(r"libm::math::exp::exp")).params[0][0]


def near(n, f, k):
    def gen(rng):
        def one():
            r = rng.randrange(8)
            if r == 0:      # around multiples of pi/2 and halves
                v = rng.choice([rng.randrange(1, 1 << rng.randrange(1, 40)) * 1.5707963267948966, rng.randrange(1, 1 << rng.randrange(1, 20)) / 2])
                import struct
                b = fp.ref_conv(fp.F64, f, struct.unpack("<Q", struct.pack("<d", v))[0])
                return (b + rng.randrange(-2, 3)) ^ (rng.getrandbits(1) << (f.w - 1))
            if r < 4:       # moderate magnitudes
                e = f.bias + rng.randrange(-12, 13)
                return rng.getrandbits(1) << (f.w - 1) | e << f.mb | rng.getrandbits(f.mb)
            return corner(rng, f.w, f)
        return [one() for _ in range(k)]
    return gen


def contracts(n, name, f, k):
    args = [("xy"[i], f) for i in range(k)]
    _, musti = nan_rule(n, f)
    take = 1 if n == "lgamma_r" else 2

    def total(*a):
        xs, o = a[:-1], a[-1]
        return o is None or not musti(xs) or all(isn(f, v) for v in o[:take])
    con = Contract(name, args, total, name, False, near(n, f, k))
    par = parity(n)
    sym = None
    if par:
        def both(*a):
            o = a[-1]
            if o is None:
                return True
            h = len(o) // 2
            if n == "j1" and a[0] & (f.signbit - 1) == f.inf:
                return all(v & (f.signbit - 1) == 0 for v in o)
            return all((isn(f, p) and isn(f, q)) or q == (p if s > 0 else p ^ f.signbit) for s, p, q in zip(par, o[:h], o[h:]))
        sym = Contract(name, args, both, f"sym{f.w}.{name}", False, near(n, f, k))
    return con, sym


def goals(C):
    C.trust.append(absfp.TRUST)
    C.trust.append("rem_pio2_large returns, with a quadrant below 8 and a remainder below 2 in magnitude that depend on its arguments only (sampled through its callers)")
    C.trust.append("pow and powf return for all arguments (sampled); floor and floorf meet the contract proved by C16")
    cons = []
    only = os.environ.get("C23_ONLY")
    for n, name, f, k in funcs():
        if only and name not in only.split():
            continue
        con, sym = contracts(n, name, f, k)
        cons += [con] + ([sym] if sym else [])
        if name == "hypot":
            continue
        one(C, n, name, f, k, con, sym)
    sample(C, cons)


def one(C, n, name, f, k, con, sym):
    C.under_contract.append(name)
    try:
        M = Model(C, n, name, f, n != "pow", absfp.Abs())
        xs = [var("xy"[i], f.w) for i in range(k)]
        c, rets, g = M.run(xs)
        obs = [o for o in c.obs if o.bad is not FALSE]

        def vc(label, kind, asserts, con, cnt=1):
            v = VC(f"{name}: {label}", name, kind, asserts + M.A.facts(asserts) + c.assumed, con, n=cnt, timeout=300)
            v.tool = "cadical"
            C.vcs.append(v)
            return v
        if n not in SAMPLED or name == "hypotf":
            v = vc("no panic, no undefined operation, indices in bounds", "safety", [bor(*[o.bad for o in obs])], con, max(1, len(c.obs)))
            v.obs = obs
            vc("returns", "returns", [bnot(g)] + c.facts, con)
        must, _ = nan_rule(n, f)
        vc("a NaN gives a NaN", "post", [must(xs), g] + c.facts + [bnot(band(*[fp.isnan(f, r) for r in rets]))], con).solver = free_results
        C.vcs[-1].own = [], []
        C.cover(name, c.facts + c.assumed + [g], xs)
        if not sym or name in OPEN:
            return
        M = Model(C, n, name, f, n != "pow", absfp.Sym())
        m = var("m", f.w - 1)
        label = "even" if parity(n)[0] > 0 else "odd"
        both = [M.run([concat(const(s, 1), m)] + xs[1:]) for s in (0, 1)]
        asserts = [ult(const(0, f.w - 1), m), ult(m, const(f.inf, f.w - 1))] + [fp.isfinite(f, x) for x in xs[1:]]
        bad = []
        for s, a, b in zip(parity(n), both[0][1], both[1][1]):
            (ma, sa, _), (mb, sb, _) = M.A.view(f, a), M.A.view(f, b)
            d = M.A.plus(M.A.plus(sa, sb), (s < 0, frozenset()))
            bad.append(bor(ne(ma, mb), band(M.A.term(d), ne(ma, const(0, f.w - 1)))))
        asserts += [x[2] for x in both] + [bor(*bad)]
        v = VC(f"{name}: {label}", name, "post", asserts + M.A.facts(asserts) + both[0][0].assumed + both[1][0].assumed, sym, timeout=300)
        ops = [[t for t in term.postorder(x[1]) if t.op == "uf"] for x in both]
        v.own = [[t for t in o if t not in set(q)] for o, q in (ops, ops[::-1])]
        v.solver = free_results
        v.tool = "cadical"
        C.vcs.append(v)
        concrete(C, M, n, name, f, k, sym)
    except (Unsupported, LookupError, RecursionError) as e:
        C.vcs.append(VC(f"{name}: translation", name, "translate", None, con))
        C.vcs[-1].res = solve.Result("unknown", info=f"{type(e).__name__}: {e}")


def concrete(C, M, n, name, f, k, sym):
    """zeros and infinities: one execution each, constants evaluated exactly"""
    if k > 1:
        return
    for m in (0, f.inf):
        outs = [M.run([const(m | s, f.w)])[1] for s in (0, f.signbit)]
        flat = [t for o in outs for t in o]
        if not all(isc(t) for t in flat):
            raise Unsupported(f"result at {m:#x} not determined")
        C.vcs.append(VC(f"{name}: symmetry at {'zero' if m == 0 else 'infinity'}", name, "post", [FALSE if sym.oracle(m, [t.x for t in flat]) else TRUE], sym))


def sample(C, cons):
    """bounded: the real functions on sampled arguments (the only check of what is assumed above)"""
    rng = random.Random(SEED * 7919 + 23)
    batch = [(con, con.samples(rng)) for con in cons for _ in range(1500)]
    outs = build.replay([line(con, b) for con, b in batch], False, timeout=200)
    for (con, b), o in zip(batch, outs):
        o = build.parse_out(o)
        if judge(con, b, o) is False:
            v = VC(f"{con.name}: sampled arguments", con.name, "sample", None, con)
            v.res = solve.Result("unknown", info="fails on the real code")
            C.vcs.append(v)
            C.hit = (v, b, o)
            raise Found
    C.bounded.append(f"{len(batch)} sampled calls of {len(cons)} functions and symmetries: returns, NaN rule, symmetry; only evidence for hypot, pow, powf (no panic), rem_pio2_large and the symmetry of {', '.join(sorted(OPEN))}")
