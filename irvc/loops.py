"""Loop invariants: a loop is cut at its head by an invariant that is proved on entry and
preserved by one execution of the body, together with a strictly decreasing measure.

The invariant speaks of roles (loop-carried integers), of ghost values with their own
initialisation and update, of the values on entry and of the arguments of the function.
Which loop-carried value plays which role is found by trying the assignments that fit by
width; an assignment counts only once every obligation of the cut has been discharged."""
import itertools, time
from .term import *
from . import term as tm, intb, solve
from .symex import Ob, Ptr, Unsupported, ptr


class Inv:
    """roles: [(width, bits)]: bits, if given, bounds the value by 2^bits (part of the invariant);
    ghosts: [(width, bits)] likewise; init(args, entry) -> ghost values; inv(args, entry, cur, ghosts) -> [terms];
    step(args, entry, cur, ghosts, nxt) -> [(case condition, ghost values)], the cases being exhaustive; measure(args, entry, cur) -> term"""

    def __init__(self, name, roles, inv, measure, ghosts=(), init=None, step=None, need=None, engine=None, timeout=20, defs=None):
        self.name, self.roles, self.inv, self.measure = name, roles, inv, measure
        self.ghosts, self.init, self.step, self.need = list(ghosts), init, step, need
        self.engine, self.timeout = engine or intb.sat, timeout
        self.defs = defs        # (args, entry, cur) -> definitions the invariant refers to, at the current iteration


def hook(invs):
    """invs: list of (function-name regex, Inv)"""
    import re

    def run(ctx, f, b, sts, doomed):
        cand = [i for r, i in invs if re.fullmatch(r, f.pretty)]
        if not cand:
            return None
        rets, left = [], {}
        for st in sts:
            if st[0] is FALSE:
                continue
            for inv in cand:
                r = attempt(ctx, f, b, st, doomed, inv)
                if r:
                    break
            else:
                return None
            rets += r[0]
            for k, v in r[1].items():
                left.setdefault(k, []).extend(v)
        return rets, left
    return run


def attempt(ctx, f, b, st, doomed, inv):
    g, e, mem, src = st
    env = ctx.phis(f, b, e, src)
    phis = [i for i in f.blocks[b] if i.op == "phi"]
    env = {**env, **{i.dst: addr(ctx, env.get(i.dst)) for i in phis if isinstance(env.get(i.dst), Ptr)}}
    ints = [i.dst for i in phis if isinstance(env.get(i.dst), T) and env[i.dst].w > 0]
    if len(ints) < len(inv.roles):
        return None
    args = [a for a in ctx.frames[-1] if isinstance(a, T)]
    for pick in itertools.permutations(ints, len(inv.roles)):
        if any(env[d].w != w for d, (w, _) in zip(pick, inv.roles)):
            continue
        if ctx.deadline and time.time() > ctx.deadline:
            raise Unsupported(f"loop in {f.pretty} not cut within the time limit")
        snap = (len(ctx.obs), len(ctx.facts), len(ctx.assumed), len(ctx.defs), len(ctx.cutoff), tm._fresh[0], dict(ctx.functions), dict(ctx.contract_used))
        try:
            r = cut(ctx, f, b, g, env, mem, doomed, inv, pick, phis, args)
        except (Unsupported, LookupError):
            r = None
        if r:
            ctx.loops[f.pretty] = ctx.loops.get(f.pretty, 0) + 1
            return r
        del ctx.obs[snap[0]:], ctx.facts[snap[1]:], ctx.assumed[snap[2]:], ctx.defs[snap[3]:], ctx.cutoff[snap[4]:]
        tm._fresh[0] = snap[5]
        ctx.functions, ctx.contract_used = snap[6], snap[7]
    return None


def addr(ctx, v):
    """a pointer into the flat memory as its address"""
    if isinstance(v, Ptr) and ctx.flat is not None and all(o is ctx.flat for _, o, _ in v.alts):
        return ctx.p2i(v)
    return v


def cut(ctx, f, b, g, env, mem, doomed, inv, pick, phis, args):
    entry = [env[d] for d in pick]
    if inv.need and not inv.need(args, entry):
        return None

    def clauses(name, guard, conds, base):
        """base: number of assumptions that may be used; earlier clauses may be used for later ones"""
        hyp = ctx.pre + ctx.assumed[:base] + [guard]
        for k, c in enumerate(conds):
            tasks.append((f"{name} clause {k}", hyp + [bnot(c)], band(guard, bnot(c))))
            hyp = hyp + [c]

    def prove():
        def job(t):
            if band(*t[1]) is FALSE:
                return ("unsat", 0.0, "syntactic", "simplifier")
            r = inv.engine(t[1], timeout=inv.timeout)
            return (r.st, r.secs, r.info, r.backend)
        rs = {}
        for i, r in solve.run_parallel(tasks, job, 8, stop_on=lambda r: r[0] != "unsat"):
            rs[i] = r
            if ctx.verbose:
                print("   ", f.pretty, inv.name, tasks[i][0], *r)
        if len(rs) < len(tasks) or any(r[0] != "unsat" for r in rs.values()):
            return False
        for i, (name, _, bad) in enumerate(tasks):
            ob = Ob("invariant", f"{inv.name}: {name}", bad, len(ctx.facts), f.pretty)
            ob.res = solve.Result(rs[i][0], secs=rs[i][1], info=rs[i][2], backend=rs[i][3])
            obs.append(ob)
        del tasks[:]
        return True
    tasks = []
    obs = []
    bounds = lambda vs, gs: [ult(v, const(1 << n, v.w)) for v, (_, n) in zip(vs + gs, inv.roles + inv.ghosts) if n and n < v.w]
    gh0 = inv.init(args, entry) if inv.init else []
    clauses("on entry", g, bounds(entry, gh0) + inv.inv(args, entry, entry, gh0), len(ctx.assumed))
    if not prove():
        return None
    env2 = dict(env)
    ptrs = {i.dst for i in phis if i.ty.k == "ptr"}
    for i in phis:
        v = env.get(i.dst)
        if isinstance(v, T):
            env2[i.dst] = tm.fresh(f"{inv.name}.{len(env2)}", v.w) if v.w else tm.fresh(f"{inv.name}.b", 0)
        elif v is not None:
            raise Unsupported("loop-carried value that is not an integer")
    for k, (d, (w, n)) in enumerate(zip(pick, inv.roles)):
        if n and n < w:
            env2[d] = zext(tm.fresh(f"{inv.name}.r{k}", n), w)
    cur = [env2[d] for d in pick]
    gh = [zext(tm.fresh(f"{inv.name}.g{k}", n or w), w) for k, (w, n) in enumerate(inv.ghosts)]
    for d in ptrs:
        if isinstance(env2[d], T):
            env2[d] = ptr(ctx.flat, env2[d])
    for c in inv.inv(args, entry, cur, gh) + (inv.defs(args, entry, cur) if inv.defs else []):
        ctx.assume(g, c)
    rets, left, back = ctx.run_blocks(f, {b: [(g, env2, mem, "cut")]}, doomed, region=f.loops[b], head=b)
    for g2, e2, m2, src in back:
        for o in mem:
            if m2.get(o) is not mem[o] and m2.get(o) != mem[o]:
                raise Unsupported("memory changed by the loop")
        n2 = ctx.phis(f, b, e2, src)
        nxt = [addr(ctx, n2[d]) for d in pick]
        base = len(ctx.assumed)
        cases = inv.step(args, entry, cur, gh, nxt) if inv.step else [(TRUE, [])]
        clauses("ghost cases exhaustive", g2, [bor(*[c for c, _ in cases])], base)
        for k, (c, gh2) in enumerate(cases):
            nm = f"preserved{k if len(cases) > 1 else ''}"
            clauses(nm + " bounds", band(g2, c), bounds(nxt, gh2), base)
            # bounded ghosts: named, now that they are known to fit
            named = [zext(tm.fresh(f"{inv.name}.n{j}", n or w), w) for j, (w, n) in enumerate(inv.ghosts)]
            clauses(nm, band(g2, c, *[eq(x, y) for x, y in zip(named, gh2)]), inv.inv(args, entry, nxt, named), base)
        clauses("measure decreases", g2, [ult(inv.measure(args, entry, nxt), inv.measure(args, entry, cur))], base)
        ctx.cutoff.append(g2)
    if not prove():
        return None
    ctx.obs += obs
    return rets, left
