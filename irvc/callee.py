"""Contracts of internal callees.

A contract is used in place of a callee's body only after it has been proved, in the same
run, of that body; where the proof or the shape of the callee does not fit, the body is used."""
import itertools, time
from .term import *
from . import intb, solve
from . import term as tm
from .llparse import ity
from .symex import Ctx, Obj, ptr, C64, Unsupported


def bits(t):
    """width of an integer IR type, else None"""
    s = str(t)
    if s == "i1":
        return 0
    return int(s[1:]) if s[:1] == "i" and s[1:].isdigit() else None


class Rel:
    """Relational contract of a function on integers.
    args: widths (None for a pointer to a result of the next kind is not supported);
    results: widths of the returned integers; requires(*args), ensures(*args, *results) -> lists of
    boolean terms; compute(*ints) -> tuple of ints (used by the vacuity guard);
    exact(*args) -> tuple of terms: the contract is functional and the terms replace the call;
    range: {result index: bits}, bounds on results that are part of the contract."""

    def __init__(self, check, name, args, results, ensures=None, requires=None, compute=None, exact=None, engine=None, timeout=30, contracts=None, permute=(), range=None):
        self.range = range or {}
        self.check, self.name, self.args, self.results = check, name, args, results
        self.ensures, self.requires, self.compute, self.exact = ensures, requires, compute, exact
        self.engine, self.timeout, self.contracts, self.permute = engine or intb.sat, timeout, contracts, permute
        self.known = {}

    # ---- shapes: how the argument order and the places of the results fit the IR signature
    def shapes(self, f):
        ps = [bits(t) for t, _ in f.params]
        sret = len(ps) == len(self.args) + 1 and str(f.params[0][0]).startswith("ptr")
        if sret:
            ps = ps[1:]
        orders = [None] + list(self.permute)
        for od in orders:
            idx = od or list(range(len(self.args)))
            if ps != [self.args[k] for k in idx]:
                continue
            n = len(self.results)
            for perm in itertools.permutations(range(n)):
                if sret:
                    off, place = 0, {}
                    for k in perm:
                        sz = self.results[k] // 8
                        al = min(16, sz)
                        off = (off + al - 1) // al * al
                        place[k] = off
                        off += sz
                    yield idx, ("mem", [place[k] for k in range(n)], off)
                else:
                    yield idx, ("ret", list(perm), 0)

    def fetch(self, c, shape, ret, mem, o):
        kind, place, _ = shape
        if kind == "mem":
            return [c.rd(mem[o], place[k], self.results[k] // 8) for k in range(len(self.results))]
        rs = list(ret) if isinstance(ret, tuple) else [ret]
        if len(rs) != len(self.results) or any(not isinstance(x, T) for x in rs):
            return None
        got = [rs[place.index(k)] for k in range(len(rs))]
        return got if all(x.w == w for x, w in zip(got, self.results)) else None

    def prove(self, ctx, name):
        from .frame import VC, feasible
        f = ctx.mod.fn(name)
        vs = [var(f"{self.name}.arg{i}", w) for i, w in enumerate(self.args)]
        pre = self.requires(*vs) if self.requires else []
        run = None
        fr, on = tm._fresh[0], Obj._n
        for idx, shape in self.shapes(f):
            key = (tuple(idx), shape[0])
            if run is None or run[0] != key:
                c = Ctx(ctx.mod, contracts=self.contracts, feasible=feasible)
                o = Obj("sret", 64, 16, "param")
                a = [vs[k] for k in idx]
                try:
                    r = c.exec_fn(f, ([ptr(o, C64(0))] if shape[0] == "mem" else []) + a, {o: {}}, TRUE)
                except (Unsupported, LookupError, RecursionError):
                    continue
                if r is None:
                    continue
                s = self.engine(pre + c.assumed + [bor(bnot(bor(r[2], *c.cutoff)), *[x.bad for x in c.obs])], timeout=self.timeout)
                run = (key, c, r, s)
            key, c, (ret, mem, g), s = run
            if s.st != "unsat":
                continue
            try:
                got = self.fetch(c, shape, ret, mem, o)
            except (Unsupported, LookupError, KeyError):
                got = None
            if got is None or any(x is None for x in got):
                continue
            goal = self.ensures(*vs, *got) if self.ensures else [eq(x, y) for x, y in zip(got, self.exact(*vs))]
            goal = goal + [ult(got[k], const(1 << n, got[k].w)) for k, n in self.range.items()]
            rs = []
            for e in goal:
                q = self.engine(pre + c.assumed + [g, bnot(e)], timeout=self.timeout)
                if q.st != "unsat":
                    break
                rs.append(q)
            else:
                pretty = ctx.mod.pretty.get(name, name)
                for nm, res, n in [("no panic, no undefined operation, returns", s, max(1, len(c.obs)))] + [(f"contract clause {k}", q, 1) for k, q in enumerate(rs)]:
                    v = VC(f"callee {pretty}: {nm}", pretty, "callee", None, n=n)
                    v.res = res
                    self.check.vcs.append(v)
                self.check.under_contract.append(pretty)
                tm._fresh[0], Obj._n = fr, on
                return idx, shape
        tm._fresh[0], Obj._n = fr, on
        return None

    def __call__(self, ctx, name, args, i, g, mem):
        if name not in ctx.mod.defs:
            return NotImplemented
        if (ctx.mod, name) not in self.known:
            self.known[ctx.mod, name] = self.prove(ctx, name)
        p = self.known[ctx.mod, name]
        if p is None:
            return NotImplemented
        idx, shape = p
        kind, place, _ = shape
        ia = args[1:] if kind == "mem" else args
        a = [None] * len(self.args)
        for pos, k in enumerate(idx):
            a[k] = ia[pos]
        for k in self.requires(*a) if self.requires else []:
            ctx.oblige("precondition", self.name, g, k)
        if self.exact:
            rs = list(self.exact(*a))
        else:
            rs = [tm.fresh(f"{self.name}.r{k}", self.range.get(k, w)) for k, w in enumerate(self.results)]
            ctx.defs.append((rs, a, self.compute))
            rs = [zext(r, w) for r, w in zip(rs, self.results)]
            for e in self.ensures(*a, *rs):
                ctx.assume(g, e)
        ctx.contract_used[self.name] = ctx.contract_used.get(self.name, 0) + 1
        if kind == "mem":
            for k, r in enumerate(rs):
                for b in range(0, r.w, 128):
                    w = min(128, r.w - b)
                    mem = ctx.store(g, mem, ctx.padd(args[0], C64(place[k] + b // 8)), ity(w), extract(b + w - 1, b, r))
            return None, mem, g
        out = tuple(rs[k] for k in place)
        return out if len(out) > 1 else out[0], mem, g


def swap_halves(t):
    h = t.w // 2
    return concat(trunc(t, h), extract(t.w - 1, h, t))


def widen_mul(check):
    """product of two 128-bit integers as a 256-bit value, in either order of the halves"""
    full = lambda a, b: mul(zext(a, 256), zext(b, 256))
    return {r".*HInt>::(zero_)?widen_mul": Rel(check, "widen_mul", [128, 128], [128, 128], exact=lambda a, b: (trunc(full(a, b), 128), extract(255, 128, full(a, b))))}


def shl256(check):
    """256-bit left shift: halves (low, high) and count"""
    full = lambda l, h, k: shl(concat(h, l), zext(k, 256))
    return {r"<.*u256 as .*Shl<u32>>::shl": Rel(check, "shl256", [128, 128, 32], [128, 128], requires=lambda l, h, k: [ult(k, const(256, 32))],
            exact=lambda l, h, k: (trunc(full(l, h, k), 128), extract(255, 128, full(l, h, k))),
            engine=solve.sat, permute=[[1, 0, 2]])}


def div3by2(check):
    """three digits by two digits of 64 bits"""
    big = lambda x: zext(x, 256)

    def ens(a0, a, n, q, r):
        return [eq(add(mul(big(q), big(n)), big(r)), concat(const(0, 64), concat(a, a0))), ult(r, n)]

    def comp(a0, a, n):
        return divmod(a << 64 | a0, n)
    return {r".*div_three_digits_by_two::<u64>": Rel(check, "div3by2", [64, 128, 128], [64, 128], ens, lambda a0, a, n: [ult(a, n), eq(extract(127, 127, n), const(1, 1))], comp)}


def norm_shift(check, w):
    """shift that aligns the divisor with the dividend, fully (largest shift not exceeding it) or by leading zeros"""
    Z = lambda x: zext(x, 2 * w) if x.w < 2 * w else trunc(x, 2 * w)

    def ens(n, d, full, s):
        D = shl(Z(d), Z(s))
        return [ule(D, ite(full, Z(n), sub(shl(Z(n), const(1, 2 * w)), const(1, 2 * w)))), ult(Z(n), shl(D, const(1, 2 * w))),
                ult(Z(d), shl(const(1, 2 * w), sub(const(w, 2 * w), Z(s)))),
                ule(add(D, shl(const(1, 2 * w), Z(s))), add(Z(n), const(1 << (w - 1), 2 * w))),
                ule(add(D, shl(const(1, 2 * w), Z(s))), shl(Z(n), const(1, 2 * w)))]

    def comp(n, d, full):
        s = max(0, d and n.bit_length() - d.bit_length())
        return (max(0, s - (full and d << s > n)),)
    return {rf".*::u{w}_normalization_shift": Rel(check, f"norm_shift{w}", [w, w, 0], [64], ens, lambda n, d, f: [bnot(eq(d, const(0, w))), ule(d, n)],
            comp, engine=solve.sat, range={0: w.bit_length() - 1})}
