"""Loops over flat byte memory, summarised in closed form and cut by a proved invariant.

The state at the head of the loop is described as a function of the number t of completed
iterations: loop-carried values with a constant step are affine in t, values that only depend on
the previous iteration are that iteration's expression, and the memory is "iteration j wrote its
word at the j-th address, for j < t; the rest is as on entry".  Nothing of this is trusted: the
body is executed on exactly this state and the next state is proved to be the description at
t + 1 (values, written word, condition for going on).  Upper bounds of t are found among the
comparisons of the loop condition and kept only if they are proved inductive; one is needed, it is
the measure.  That every earlier iteration j < t took the back edge is then a consequence, used at
t - 1 and at the iterations that reach the addresses named by the contract (`marks`)."""
import time
from .term import *
from . import term as tm, solve
from .symex import Ob, Ptr, Unsupported, ptr, C64

K64 = lambda v: const(v, 64)


def log2(n):
    return n.bit_length() - 1 if n > 0 and n & (n - 1) == 0 else None


def scaled(t, s, w):
    """s*t in w bits"""
    t = resize(t, w)
    a = abs(s)
    k = log2(a)
    r = shl(t, const(k, w)) if k is not None else mul(t, const(a, w))
    return neg(r) if s < 0 else r


class Key:
    """a loop-carried value: ('phi', name) or ('cell', object, offset, size)"""

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a
        self.var = self.obj = None

    def __eq__(self, o):
        return (self.kind, self.a) == (o.kind, o.a)

    def __hash__(self):
        return hash((self.kind, self.a))


def lift(ctx, v):
    """value -> (term, object of the pointer or None)"""
    if isinstance(v, Ptr):
        if len(v.alts) == 1 and (v.alts[0][1] is ctx.flat or v.alts[0][1] is None):
            return v.alts[0][2], "flat"
        if len(v.alts) == 1:
            return v.alts[0][2], v.alts[0][1]
        return ctx.p2i(v), "flat"
    return v, None


def lower(ctx, t, o):
    return t if o is None else ptr(ctx.flat if o == "flat" else o, t)


def hook(marks=(), prev=None):
    def run(ctx, f, b, sts, doomed):
        if prev:
            r = prev(ctx, f, b, sts, doomed)
            if r is not None:
                return r
        rets, left = [], {}
        for st in sts:
            if st[0] is FALSE:
                continue
            snap = (len(ctx.obs), len(ctx.facts), len(ctx.assumed), len(ctx.defs), len(ctx.cutoff), dict(ctx.functions), dict(ctx.contract_used), tm._fresh[0])

            def undo():
                del ctx.obs[snap[0]:], ctx.facts[snap[1]:], ctx.assumed[snap[2]:], ctx.defs[snap[3]:], ctx.cutoff[snap[4]:]
                ctx.functions, ctx.contract_used = dict(snap[5]), dict(snap[6])
            try:
                r = cut(ctx, f, b, st, doomed, marks, undo)
            except Unsupported as e:
                if ctx.verbose:
                    print("    loop in", f.pretty, "not cut:", e)
                r = None
            if r is None:
                undo()
                tm._fresh[0] = snap[7]
                return None
            rets += r[0]
            for k, v in r[1].items():
                left.setdefault(k, []).extend(v)
        return rets, left
    return run


def chain(m, base):
    """bytes written by a chain of stores on top of base: [(address, byte)] oldest first"""
    out = []
    while m is not base:
        if m.op != "store":
            raise Unsupported("conditional write in a loop")
        out.append((m.args[1], m.args[2]))
        m = m.args[0]
    return out[::-1]


def reading_(t):
    return any(x.op == "select" for x in postorder([t]))


def covered(m, x):
    """condition under which the loop wrote the byte at x, as the unfolding of a read has it"""
    _, t, w0, _, _ = m.args
    n, fwd = m.x
    off = lsub(x, w0) if fwd else lsub(add(w0, K64(n - 1)), x)
    return ult(lshr(off, K64(log2(n))), t)


def cut(ctx, f, b, st, doomed, marks, undo):
    g, e, mem, src = st
    flat = ctx.flat
    M0 = mem[flat]
    env = ctx.phis(f, b, e, src)
    phis = [i for i in f.blocks[b] if i.op == "phi"]
    keys = [Key("phi", i.dst) for i in phis if env.get(i.dst) is not None]
    hooks = ctx.hooks

    def get(k, env, mem):
        if k.kind == "phi":
            return env.get(k.a[0])
        o, off, size = k.a
        c = mem.get(o, {}).get(off)
        return c[1] if c is not None and c[0] == size else None

    def place(vals, M):
        """state with the given values of the keys"""
        e2, m2 = dict(env), dict(mem)
        m2[flat] = M
        for k, v in vals.items():
            if k.kind == "phi":
                e2[k.a[0]] = v
            else:
                o, off, size = k.a
                cells = dict(m2[o])
                if v is None:
                    cells.pop(off, None)
                else:
                    cells[off] = (size, v)
                m2[o] = cells
        return e2, m2

    def body(vals, M):
        e2, m2 = place(vals, M)
        return ctx.run_blocks(f, {b: [(g, e2, m2, "cut")]}, doomed, region=f.loops[b], head=b)

    def after(back):
        """merged state on going back"""
        back = [x for x in back if x[0] is not FALSE]
        if not back:
            return None
        sts = []
        for g2, e2, m2, s2 in back:
            sts.append((g2, ctx.phis(f, b, e2, s2), m2))
        return ctx.merge_states(sts)

    # ---- what the loop carries
    reads = []
    rec = dict(hooks)
    rec["flat_read"] = lambda c, gd, off, size: reads.append((off, size))
    rec.pop("flat_write", None)
    ctx.hooks = rec
    try:
        for _ in range(6):
            entry, vals = {}, {}
            for n, k in enumerate(keys):
                v = get(k, env, mem)
                if v is None:
                    entry[k] = vals[k] = None
                    continue
                if isinstance(v, tuple):
                    raise Unsupported("loop-carried aggregate")
                t, k.obj = lift(ctx, v)
                entry[k] = t
                k.var = tm.fresh(f"loop.{n}", t.w)
                vals[k] = lower(ctx, k.var, k.obj)
            del reads[:]
            r = after(body(vals, M0)[2])
            undo()
            if r is None:
                return None
            g2, e2, m2 = r
            new = []
            for o, cells in mem.items():
                if o is flat or m2.get(o) is cells:
                    continue
                ph = place(vals, M0)[1][o]
                for off in set(m2.get(o, {})) | set(cells):
                    if ph.get(off) != m2[o].get(off):
                        c = m2[o].get(off) or ph.get(off)
                        k = Key("cell", o, off, c[0])
                        if k not in keys:
                            new.append(k)
            if not new:
                break
            keys += new
        else:
            raise Unsupported("loop-carried memory")
    finally:
        ctx.hooks = hooks
    extra = [x for x in lits(g2) if x.id not in {y.id for y in lits(g)}]
    units = {}
    for l in extra:
        if l.op == "bnot":
            units[l.args[0]] = FALSE
        else:
            units[l] = TRUE
    under = lambda t: substitute([t], units)[0]
    nxt, step, lag = {}, {}, []
    for k in keys:
        if entry[k] is None:
            continue
        v = get(k, e2, m2)
        t, o = lift(ctx, v) if v is not None and not isinstance(v, tuple) else (None, None)
        if t is None or t.w != entry[k].w or (o is None) != (k.obj is None):
            nxt[k] = None
            continue
        if o is not None and o != k.obj:
            raise Unsupported("loop-carried pointer changes object")
        nxt[k] = under(t)
        if t.w == 0:
            d = nxt[k] is k.var
            if d:
                step[k] = 0
            else:
                lag.append(k)
            continue
        d = sub(nxt[k], k.var)
        if isc(d):
            step[k] = sgn(d.x, t.w)
        else:
            lag.append(k)
    bad = {k.var.id for k in lag} | {k.var.id for k in nxt if nxt[k] is None}
    loose = [k for k in keys if entry[k] is not None and nxt.get(k) is None]
    for k in list(lag):
        if any(v.id in bad for v in variables(nxt[k])):
            lag.remove(k)
            loose.append(k)
    # ---- the written word
    ch = chain(m2[flat], M0) if m2[flat] is not M0 else []
    word = None
    if ch:
        # bytes by address relative to the first
        offs = []
        for ad, v in ch:
            d = sub(under(ad), under(ch[0][0]))
            if not isc(d):
                raise Unsupported("scattered writes in a loop")
            offs.append((sgn(d.x, 64), under(v)))
        last = dict(offs)
        lo = min(last)
        n = len(last)
        if sorted(last) != list(range(lo, lo + n)) or log2(n) is None:
            raise Unsupported("writes of a loop iteration not a word")
        wa = add(under(ch[0][0]), K64(lo))
        V = last[lo]
        for i in range(1, n):
            V = concat(last[lo + i], V)
        if any(v.id in bad for v in variables(wa)):
            raise Unsupported("written address not affine")
        word = (wa, V, n)
    # ---- closed form
    def state(t):
        """values of the keys after t iterations"""
        s = {}
        for k, c in step.items():
            s[k.var] = add(entry[k], scaled(t, c, entry[k].w)) if c else entry[k]
        if lag:
            p = sub(t, K64(1))
            sp = {k.var: add(entry[k], scaled(p, c, entry[k].w)) if c else entry[k] for k, c in step.items()}
            for k in lag:
                x = substitute([nxt[k]], sp)[0]
                s[k.var] = ite(eq(t, K64(0)), entry[k], x) if x.w else bite(eq(t, K64(0)), entry[k], x)
        return s
    at = lambda x, t: substitute([x], state(t))[0]
    for x in [band(*extra)] + ([word[1]] if word else []):
        if any(v.id in {k.var.id for k in loose} for v in variables(x)):
            raise Unsupported("loop depends on a value without closed form")
    byvar = {k.var.id: k for k in keys if k.var is not None}

    def rate(x):
        """constant step of a term, or None"""
        r = 0
        for v, c in linear(x).items():
            if v is None:
                continue
            if v.id in byvar:
                if byvar[v.id] not in step or v.w != x.w:
                    return None
                r += c * step[byvar[v.id]]
            elif any(y.id in byvar for y in variables(v)):
                return None
        return sgn(r & mask(x.w), x.w)
    t = tm.fresh("iter", 64)
    J = tm.fresh("J", 64)
    fwd = True
    if word:
        w0 = at(word[0], K64(0))
        d = rate(word[0])
        if d is None or abs(d) != word[2]:
            raise Unsupported("loop writes do not abut")
        fwd = d > 0
        head = lambda t: mloop(M0, t, w0, at(word[1], J), J, word[2], fwd)
    else:
        head = lambda t: M0
    cont = lambda j: at(band(*extra), j)
    # ---- candidate bounds on t
    cands, seen = [], set()
    ok = {k.var.id for k in step}
    vs = {k.var.id for k in keys if k.var is not None}
    for x in postorder([band(*extra)]):
        if x.op not in ("ult", "eq", "slt") or x.args[0].w != 64:
            continue
        if any(v.id in vs and v.id not in ok for v in variables(x)):
            continue
        for p, q in (x.args, x.args[::-1]):
            D = sub(q, p)
            r = rate(D)
            if r is None or r >= 0 or log2(-r) is None:
                continue
            k = log2(-r)
            for c in (lshr(at(D, K64(0)), K64(k)), add(lshr(sub(at(D, K64(0)), K64(1)), K64(k)), K64(1))):
                if c.id not in seen:
                    seen.add(c.id)
                    cands.append(c)
    insts = []
    for off, size in reads:
        off = under(off)
        if any(v.id in vs and v.id not in ok for v in variables(off)):
            continue
        r = rate(off)
        if not r or log2(abs(r)) is None:
            continue
        a0 = at(off, K64(0))
        for m in marks:
            D = sub(m, a0) if r > 0 else sub(a0, m)
            j = lshr(D, K64(log2(abs(r))))
            if j.id not in seen:
                seen.add(j.id)
                insts.append(j)
    history = lambda t: [bor(bnot(ult(j, t)), cont(j)) for j in insts] + [bor(eq(t, K64(0)), cont(sub(t, K64(1))))]
    base = ctx.pre + ctx.assumed + [g]

    def prove(name, hyp, goal, timeout=40, weak=False):
        # arithmetic alone is mostly enough
        if not reading_(goal):
            fm = [h for h in hyp if not reading_(h)] + [bnot(goal)]
            if band(*fm) is FALSE:
                return solve.Result("unsat", secs=0.0, info="syntactic", backend="simplifier")
            r = solve.sat(fm, timeout=timeout, tool="cadical")
            if r.st == "unsat" or weak:
                if ctx.verbose:
                    print("   ", f.pretty, "loop", name, r.st, f"{r.secs:.2f}")
                return r
        fm = hyp + [bnot(goal)]
        if band(*fm) is FALSE:
            return solve.Result("unsat", secs=0.0, info="syntactic", backend="simplifier")
        r = solve.sat(fm, timeout=timeout, tool="cadical")
        if ctx.verbose:
            print("   ", f.pretty, "loop", name, r.st, f"{r.secs:.2f}")
        return r
    obs = []

    def record(name, r, bad):
        ob = Ob("invariant", name, bad, len(ctx.facts), f.pretty)
        ob.res = r
        obs.append(ob)
    # inductive bounds: from the loop condition, or else from the addresses of the contract
    for kept, weak in ((cands, True), (insts, False)):
        while kept:
            hyp = base + [ule(t, c) for c in kept] + history(t) + [x for l in lits(cont(t)) for x in lits(l)]
            res = {}
            for c in kept:
                res[c.id] = prove("bound", hyp, ule(add(t, K64(1)), c), weak=weak)
            left_ = [c for c in kept if res[c.id].st == "unsat"]
            if len(left_) == len(kept):
                break
            kept = left_
        if kept:
            break
    if not kept:
        if ctx.verbose:
            print([show(x, 6) for x in extra], {k.a[0]: step.get(k) for k in keys}, len(lag), [c for c in cands])
        raise Unsupported("no bound on the number of iterations found")
    for n, c in enumerate(kept):
        record(f"bound {n} on the iterations preserved", res[c.id], FALSE)
    last = bor(eq(t, K64(0)), band(*[l for l in lits(cont(sub(t, K64(1)))) if not reading_(l)]))
    inv = [ule(t, c) for c in kept] + history(t)[:-1] + [last]
    for c in inv:
        ctx.assume(g, c)
    # ---- the body on the described state
    s = state(t)
    vals = {}
    for k in keys:
        if entry[k] is None:
            vals[k] = None
        elif k in loose:
            vals[k] = lower(ctx, tm.fresh("loose", entry[k].w), k.obj)
        else:
            vals[k] = lower(ctx, s[k.var], k.obj)
    seen_reads = []
    wrap = dict(hooks)

    def reading(c, gd, off, size):
        seen_reads.append((gd, off, size))
        if "flat_read" in hooks:
            hooks["flat_read"](c, gd, off, size)
    wrap["flat_read"] = reading
    ctx.hooks = wrap
    try:
        rets, left, back = body(vals, head(t))
    finally:
        ctx.hooks = hooks
    r = after(back)
    if r is None:
        raise Unsupported("loop condition")
    g3, e3, m3 = r
    hyp = ctx.pre + ctx.assumed
    goals = []
    c = band(g, cont(t))
    goals.append(("condition for going on", [], biff(g3, c)))
    s1 = state(add(t, K64(1)))
    for n, k in enumerate(keys):
        if entry[k] is None or k in loose:
            continue
        v = get(k, e3, m3)
        x, o = lift(ctx, v)
        goals.append((f"carried value {n}", [g3], eq(x, s1[k.var]) if x.w else biff(x, s1[k.var])))
    if word:
        ch3 = chain(m3[flat], head(t))
        wat = at(word[0], t)
        Vt = at(word[1], t)
        last = {}
        for ad, v in ch3:
            d = sub(ad, wat)
            if not isc(d):
                # equal under the conditions of the body
                d = sub(ad, ch3[0][0])
                if not isc(d):
                    raise Unsupported("written address")
                goals.append((f"address written", [g3], eq(sub(ad, d), wat)))
            last[d.x] = v
        if set(last) != set(range(word[2])):
            raise Unsupported("written word")
        for i in range(word[2]):
            goals.append((f"byte {i} written", [g3], eq(last[i], extract(8 * i + 7, 8 * i, Vt))))
    for o, cells in mem.items():
        if o is flat:
            continue
        pl = place(vals, None)[1][o]
        for off in set(pl) | set(m3.get(o, {})):
            k = next((k for k in keys if k.kind == "cell" and k.a[:2] == (o, off)), None)
            if k is None and pl.get(off) != m3[o].get(off):
                raise Unsupported("memory changed by the loop")
    # what the body reads is not what the loop has written, where that is so
    known = {}
    if word:
        plain = [h for h in hyp if not reading_(h)]
        M = head(t)
        for n, (gd, off, size) in enumerate(seen_reads):
            if not isinstance(size, int):
                continue
            cs = [covered(M, add(off, K64(i))) for i in range(size)]
            cs = [c for c in cs if not isc(c) and c not in known]
            if not cs:
                continue
            r = prove(f"read {n} apart", plain + [gd], bnot(bor(*cs)))
            if r.st == "unsat":
                record(f"read {n} is not of written bytes", r, FALSE)
                if all(l.id in {x.id for x in lits(g3)} for l in lits(gd)):
                    known.update((c, FALSE) for c in cs)
    memo = {}
    for name, hh, goal in goals:
        goal = expand([goal], memo)[0]
        if known:
            goal = substitute([goal], known)[0]
        if hh:
            goal = substitute([goal], {(l.args[0] if l.op == "bnot" else l): FALSE if l.op == "bnot" else TRUE for l in lits(expand([g3], memo)[0])})[0]
        r = prove(name, hyp + hh, goal)
        if r.st != "unsat":
            if ctx.verbose:
                print("   ", "not proved:", name, r.st)
            raise Unsupported(f"loop in {f.pretty}: {name} not as described ({r.st})")
        record(name, r, FALSE)
    ctx.cutoff.append(g3)
    ctx.obs += obs
    ctx.loops[f.pretty] = ctx.loops.get(f.pretty, 0) + 1
    return rets, left
