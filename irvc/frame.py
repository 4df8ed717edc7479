"""Check driver: contracts -> obligations -> parallel discharge -> verdict and evidence."""
import json, os, random, re, sys, time, traceback
from .term import *
from . import fp, solve, build, term
from .llparse import Module, ity
from .symex import Ctx, Obj, Ptr, ptr, C64, Unsupported, NULL

HERE = build.HERE
T0 = time.time()
QUICK = os.environ.get("VERIF_TIER", "quick") != "thorough"
SEED = int(os.environ.get("VERIF_SEED", "0") or 0)
BUDGET = float(os.environ.get("VERIF_BUDGET", "780"))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))

BASE_TRUST = [
    "rustc front end and LLVM's SROA pass (the obligations are generated from the LLVM IR they emit for the current source)",
    "irvc: IR parser, symbolic executor, term simplifier and bit blaster (/verif/irvc), self-tested by /verif/tools/selftest_*.py",
    "SAT solver kissat 4.0.1, or cadical where evidence names it (unsat answers are not re-checked)",
    "target semantics: x86_64-unknown-linux-gnu data layout",
]


SWEEP_TRUST = "irvc/sweep.cpp: SAT sweeping (own CDCL solver; self-tested by tools/selftest_sweep.py against kissat)"


class VC:
    """One obligation: the conjunction of `asserts` must be unsatisfiable."""

    def __init__(self, name, fn, kind, asserts, con=None, solver=None, n=1, timeout=None, prio=0, unfold=None, cons=None, gen=None, mulabs=None, limit=2000):
        self.cons, self.gen, self.mulabs, self.limit = cons, gen, mulabs, limit
        self.name, self.fn, self.kind, self.asserts, self.con = name, fn, kind, asserts, con
        self.solver, self.n, self.timeout, self.prio = solver, n, timeout, prio
        self.unfold = unfold
        self.res = None


def total(oracle):
    """any value will do, as long as one is returned"""
    return oracle and (lambda *a: None if oracle(*a) is None else True)


class Contract:
    def __init__(self, name, args, oracle, replay, arch, samples=None, show=None):
        self.name, self.args, self.oracle, self.replay, self.arch, self.samples = name, args, oracle, replay, arch, samples
        self.show = show


def weak_first(v, tm, weak):
    r = solve.sat([term.propagate(band(*weak))], timeout=min(tm, 60), tool="cadical")
    return r if r.st == "unsat" else solve.sat(v.asserts, timeout=max(5, tm - r.secs), tool="cadical")


def split_ite(t, cap):
    """leaves of nested choices: [(conditions, value)], at most cap"""
    done, todo = [], [([], t)]
    while todo and len(done) + len(todo) < cap:
        cs, v = todo.pop(0)
        if v.op != "ite":
            done.append((cs, v))
            continue
        c = v.args[0]
        for lit, w in ((c, v.args[1]), (bnot(c), v.args[2])):
            if any(bnot(lit) is x for x in cs):
                continue
            w = substitute([w], {c: TRUE if lit is c else FALSE})[0]
            todo.append((cs + [lit], w))
    return done + todo


def width(t):
    if isinstance(t, fp.Fmt):
        return t.w
    if isinstance(t, int):
        return t
    return int(t[1:])


class Found(Exception):
    """the real code fails on an input: no need to generate more"""


class Check:
    def __init__(self, pid, level="proof"):
        self.pid, self.level = pid, level
        self.vcs = []
        self.mods = {}
        self.trust = list(BASE_TRUST)
        self.functions = {}
        self.under_contract = []
        self.covers = 0
        self.notes = {}
        self.failures = []        # (vc, verdict text, inputs or None, verifier output)
        self.bounded = []
        self.errors = []
        self.contract_used = {}
        self.native_nan = 0
        self.extra_obl = 0
        self.cuts = {}
        self.symex_s = 0.0
        self.hit, self.searched = None, set()
        self.safety_only = False        # only: returns, no panic, no undefined operation, no foreign access
        self.verbose = bool(os.environ.get("VERIF_VERBOSE"))

    # ------------------------------------------------------------ building
    def module(self, cfg):
        if cfg not in self.mods:
            self.mods[cfg] = Module(build.emit(cfg) if cfg in build.CFG else build.emit_driver(cfg))
        return self.mods[cfg]

    def driver(self, name):
        """whether a harness crate that includes source files of the repository compiles; if not, what
        it covers is left out and said so: another configuration is not what the repository builds"""
        try:
            self.module(name)
            return True
        except build.BuildError as e:
            self.notes.setdefault("left out: harness crates that do not compile", []).append(f"{name}: {str(e)[-300:]}")
            return False

    def find(self, mod, name):
        """public entry by its last path segment"""
        if "@" + name in mod.defs:
            return "@" + name
        return mod.find(name if "::" in name else r"[\w:]*::" + re.escape(name))

    def symex(self, mod, pat, args, mem=None, **kw):
        t0 = time.time()
        kw.setdefault("feasible", feasible)
        term._fresh[0] = 0      # equal functions give equal terms (each query involves one execution)
        Obj._n = 0
        loops, pre = kw.pop("loops", None), kw.pop("pre", None)
        flat, marks, whole = kw.pop("flat", None), kw.pop("marks", ()), kw.pop("whole", None)
        unroll = kw.pop("unroll", False)
        c = kw.pop("ctx", None) or Ctx(mod, **kw)
        c.verbose = bool(os.environ.get("VERIF_VERBOSE"))
        c.pre = pre or []
        c.deadline = min(t0 + 120, max(T0 + 420, t0 + 5))
        if loops:
            from .loops import hook
            c.loophook = hook(loops)
        if flat:
            from . import memloops
            c.flat, c.whole = flat, whole
            c.loophook = None if unroll else memloops.hook(marks, c.loophook)
        f = mod.fn(self.find(mod, pat))
        r = c.exec_fn(f, args, mem or {}, TRUE)
        self.symex_s += time.time() - t0
        for k, v in c.functions.items():
            self.functions[k] = self.functions.get(k, 0) + v
        for k, v in c.contract_used.items():
            self.contract_used[k] = self.contract_used.get(k, 0) + v
        self.native_nan += c.nan_ops
        return c, r

    def contract(self, cfg, name, args, ensures, oracle, requires=None, outs=(), split=None, replay=None,
                 samples=None, pat=None, solver=None, timeout=None, panics=True, post=True, mkargs=None, sret=None, sweep=None, mulabs=None, limit=2000, engine=None, paths=0, **kw):
        """args: list of (name, type) with type a Fmt, 'uN'/'iN', or ('out', bytes) for a result pointer.
        ensures(args..., result, out values...) -> list of (label, boolean term).
        split(args...) -> list of (label, condition[, simulation patterns[, postcondition(result) for this case]]).
        oracle(ints..., outputs) -> True / False / None when out of the domain."""
        mod = self.module(cfg)
        if self.safety_only:
            oracle, post = total(oracle), False
        con = Contract(name, [(n, t) for n, t in args if not isinstance(t, tuple)], oracle, replay or name, cfg.endswith("_arch"), samples)
        self.under_contract.append(name if not cfg.endswith("_arch") else name + " [arch]")
        try:
            vals, mem, outp, ins = [], {}, [], []
            for n, t in args:
                if isinstance(t, tuple):
                    o = Obj(n, t[1], t[1], "param")
                    mem[o] = {}
                    outp.append((o, t[1]))
                    vals.append(ptr(o, C64(0)))
                else:
                    v = var(n, width(t))
                    ins.append(v)
                    vals.append(v)
            pre = requires(*ins) if requires else []
            call = mkargs(*vals) if mkargs else vals
            so = None
            if sret and len(mod.fn(self.find(mod, pat or name)).params) == len(call) + 1:
                so = Obj("sret", 64, 16, "param")
                mem[so] = {}
                call = [ptr(so, C64(0))] + call
            c, (ret, mem2, g) = self.symex(mod, pat or name, call, mem, pre=pre, **kw)
            if so:
                ret = tuple(c.rd(mem2[so], o, n) for o, n in sret)
            pre = pre + c.assumed
        except (Unsupported, LookupError, RecursionError) as e:
            self.vcs.append(VC(f"{name}: translation", name, "translate", None, con))
            self.vcs[-1].res = solve.Result("unknown", info=f"{type(e).__name__}: {e}")
            if os.environ.get("VERIF_KEEPGOING") is None and self.falsify(self.vcs[-1]):
                raise Found
            return None
        if engine == "int":
            solver = int_solver()
        elif isinstance(engine, tuple):
            solver = opaque_solver(engine)
        elif callable(engine):
            solver = int_solver(engine)
        for o in c.obs:
            if o.res:
                self.vcs.append(VC(f"{name}: {o.name}", o.fn, o.kind, None, con))
                self.vcs[-1].res = o.res
        for k, n in c.loops.items():
            self.cuts[k] = self.cuts.get(k, 0) + n
        open_obs = [o for o in c.obs if not o.res]
        nob = len(open_obs)
        if panics:
            bads = [o.bad for o in open_obs if o.bad is not FALSE]
            if engine == "int":
                # one by one: each carries the path it is on
                for o in open_obs:
                    self.vcs.append(VC(f"{name}: {o.kind} {o.name} in {o.fn}", name, "safety", pre + [o.bad], con, timeout=timeout, solver=solver))
                    self.vcs[-1].obs = [o]
            else:
                self.vcs.append(VC(f"{name}: no panic, no undefined operation", name, "safety", pre + [bor(*bads)], con, n=max(1, nob), timeout=timeout, solver=solver if engine else None))
                self.vcs[-1].obs = [o for o in open_obs if o.bad is not FALSE]
            self.vcs.append(VC(f"{name}: returns", name, "returns", pre + [bnot(bor(g, *c.cutoff))] + c.facts, con, timeout=timeout, solver=solver if engine else None))
        if post:
            ov = []
            for o, s in outp:
                cells = mem2[o]
                ov.append(c.rd(cells, 0, s) if cells else None)
            es = ensures(*ins, ret, *ov)
            if not isinstance(es, list):
                es = [("result", es)]
            cases = split(*ins) if split else [("", TRUE)]
            if split:
                self.vcs.append(VC(f"{name}: case split exhaustive", name, "split", pre + [bnot(bor(*[x[1] for x in cases]))], con))
            # facts (absence of panics) are proved by the safety obligation
            for lab, e in es:
                for cl, cc, *how in cases:
                    if how[1:]:
                        e = how[1](ret)
                    v = VC(f"{name}: {lab}" + (f" [{cl}]" if cl else ""), name, "post",
                           pre + [cc, g, bnot(e)], con, solver=solver, timeout=timeout)
                    if paths:
                        from . import intb
                        for k, a in enumerate(intb.leaves(v.asserts, paths)):
                            self.vcs.append(VC(f"{v.name} [path {k}]", name, "post", a, con, solver=solver, timeout=timeout))
                        continue
                    if sweep:
                        v.cons, v.goals, v.gen, v.mulabs, v.limit = pre + [cc], [g, bnot(e)], how[0] if how else sweep, mulabs, limit
                    self.vcs.append(v)
        # vacuity guard: precondition and return reachable on a concrete input
        if c.loops:
            self.cover_run(mod, pat or name, name, args, requires, mkargs, sret, kw)
        else:
            self.cover(name, pre + c.facts + [g], ins, c.defs)
        return c, ret, g

    def memory(self, cfg, name, args, requires, ensures, oracle, samples, reads, writes, marks=None, replay=None, lemmas=None, pat=None, timeout=None, cap=64, shape=None, env=False, **kw):
        """contract over flat byte memory.  args: (name, 'p' or 'uN'/'iN'); ghost values have names starting with '%'.
        requires(args, M) -> [terms]; ensures(args, result, M, M2) -> [(label, term)];
        reads/writes(args, lo, n) -> condition under which the n bytes from lo on may be accessed;
        marks(args) -> addresses at which the history of loops is wanted;
        shape(variables) -> args, a change of variables;
        lemmas(args, M, asserts) -> asserts with instances of quantified preconditions for the reads that occur"""
        mod = self.module(cfg)
        show = [(n, t) for n, t in args if not n.startswith("%")]
        con = Contract(name, [(n, "u64") for n in samples.args], oracle, replay or name, cfg.endswith("_arch"), samples)
        self.under_contract.append(name if not cfg.endswith("_arch") else name + " [arch]")
        flat = Obj("memory", None, 1, "flat")
        M = var("M0", -1)
        vs = [var(n, 64 if t == "p" else width(t)) for n, t in args]
        if shape:
            vs = shape(*vs)
        pre = requires(vs, M)
        call = [ptr(flat, v) if t == "p" else v for v, (n, t) in zip(vs, args) if not n.startswith("%")]

        mem0 = {flat: M}
        if env:
            # captured references: only handed on
            o = Obj("captured", 64, 8, "param")
            mem0[o] = {8 * k: (8, ptr(o, C64(0))) for k in range(8)}
            call = [ptr(o, C64(0))] * (len(mod.fn(self.find(mod, pat or name)).params) - len(call)) + call

        def rd(c, g, lo, n):
            c.oblige("memory", "read outside the range allowed", g, reads(vs, lo, n if isinstance(n, term.T) else C64(n)))

        def wr(c, g, lo, n):
            c.oblige("memory", "write outside the range allowed", g, writes(vs, lo, n if isinstance(n, term.T) else C64(n)))
        try:
            c, (ret, mem2, g) = self.symex(mod, pat or name, call, mem0, pre=pre, flat=flat, whole=vs, marks=marks(vs) if marks else (),
                                           hooks={"flat_read": rd, "flat_write": wr}, **kw)
        except (Unsupported, LookupError, RecursionError) as e:
            self.vcs.append(VC(f"{name}: translation", name, "translate", None, con))
            self.vcs[-1].res = solve.Result("unknown", info=f"{type(e).__name__}: {e}")
            if os.environ.get("VERIF_KEEPGOING") is None and self.falsify(self.vcs[-1]):
                raise Found
            return None
        pre = pre + c.assumed
        for o in c.obs:
            if o.res:
                self.vcs.append(VC(f"{name}: {o.name}", o.fn, o.kind, None, con))
                self.vcs[-1].res = o.res
        for k, n in c.loops.items():
            self.cuts[k] = self.cuts.get(k, 0) + n

        def add_vc(label, kind, asserts, n=1):
            asserts = [term.propagate(term.expand([band(*asserts)])[0])]
            if lemmas:
                asserts = lemmas(vs, M, asserts)
            self.vcs.append(VC(f"{name}: {label}", name, kind, asserts, con, n=n, timeout=timeout, prio=kind == "post"))
            self.vcs[-1].tool = "cadical"
            return self.vcs[-1]
        obs = [o for o in c.obs if not o.res and o.bad is not FALSE]
        reading = lambda t: any(x.op == "select" for x in term.postorder([t]))
        plain = [p for p in pre if not reading(p)]
        for o in obs:
            # arithmetic alone is mostly enough: conditions on the contents are left out at first
            weak = plain + [l for l in lits(o.bad) if not reading(l)]
            v = add_vc(f"{o.kind} {o.name} in {o.fn}", "safety", pre + [o.bad])
            v.obs = [o]
            v.solver = lambda v, tm, weak=weak: weak_first(v, tm, weak)
        add_vc("returns", "returns", pre + c.facts + [bnot(bor(g, *c.cutoff))])
        if isinstance(ret, Ptr):
            ret = c.p2i(ret)
        for lab, e in ensures(vs, ret, M, mem2[flat]):
            # a byte of the final memory: one condition per way it can have been written
            e = term.expand([e])[0]
            ways = [([], e)]
            if e.op == "eq" and cap:
                ways = [(cs + ds, eq(v, w)) for cs, v in split_ite(e.args[0], cap) for ds, w in split_ite(e.args[1], cap)]
                ways = [(cs, v) for cs, v in ways if v is not TRUE and band(*cs) is not FALSE]
            for i, (cs, v) in enumerate(ways):
                add_vc(lab + (f" [way {i}]" if len(ways) > 1 else ""), "post", pre + [g] + cs + [bnot(v)])
        r = solve.sat(pre + [g], timeout=60)
        if r.st == "sat":
            self.covers += 1
        else:
            self.errors.append(f"cover check failed for {name}: {r.st}")
        return c

    def cover_run(self, mod, pat, name, args, requires, mkargs, sret, kw):
        """vacuity guard where loops are cut: some concrete input meets the precondition and the
        execution of the same code on it, without cuts, returns"""
        rng = random.Random(name)
        kw = {k: v for k, v in kw.items() if k not in ("loops", "contracts")}
        for k in range(50):
            vals, mem, ins = [], {}, []
            for n, t in args:
                if isinstance(t, tuple):
                    o = Obj(n, t[1], t[1], "param")
                    mem[o] = {}
                    vals.append(ptr(o, C64(0)))
                else:
                    ins.append(const(corner(rng, width(t)), width(t)))
                    vals.append(ins[-1])
            if requires and band(*requires(*ins)) is not TRUE:
                continue
            call = mkargs(*vals) if mkargs else vals
            if sret and len(mod.fn(self.find(mod, pat)).params) == len(call) + 1:
                so = Obj("sret", 64, 16, "param")
                mem[so] = {}
                call = [ptr(so, C64(0))] + call
            try:
                c, (ret, _, g) = self.symex(mod, pat, call, mem, **kw)
            except Unsupported:
                continue
            if g is TRUE and all(o.bad is FALSE for o in c.obs):
                self.covers += 1
                return
        self.errors.append(f"cover check failed for {name}: no concrete execution returns")

    def cover(self, name, conj, ins, defs=()):
        rng = random.Random(name)
        f = band(*conj)
        if f is FALSE:
            self.errors.append(f"vacuous contract for {name}")
            return
        for k in range(200):
            env = {v: corner(rng, v.w) if k else 1 for v in sorted(variables(f, *[a for _, aa, _ in defs for a in aa]), key=lambda v: v.id)}
            try:
                for rs, aa, comp in defs:
                    try:
                        env.update(zip(rs, comp(*evaluate(aa, env))))
                    except ZeroDivisionError:
                        pass
                if evaluate([f], env)[0]:
                    self.covers += 1
                    return
            except KeyError:
                break
        r = solve.sat([f], timeout=120)
        if r.st == "sat":
            self.covers += 1
        else:
            self.errors.append(f"cover check failed for {name}: {r}")

    # ------------------------------------------------------------ running
    def discharge(self):
        todo, first, dup = [], {}, {}
        for i, v in enumerate(self.vcs):
            if v.res is not None:
                continue
            key = frozenset(x.id for x in v.asserts if x is not TRUE) if v.asserts is not None and not v.solver else i
            if key in first:
                dup.setdefault(first[key], []).append(v)    # literally the same formula
            else:
                first[key] = i
                todo.append(i)
        todo.sort(key=lambda i: -self.vcs[i].prio)

        def job(i):
            v = self.vcs[i]
            tm = v.timeout or 600
            tm = max(5, min(tm, BUDGET - (time.time() - T0)))
            if v.solver:
                r = v.solver(v, tm)
            elif v.cons is not None:
                r = solve.swept(v.cons, v.goals, v.gen, timeout=tm, mulabs=v.mulabs, limit=v.limit)
            else:
                r = solve.sat(v.asserts, timeout=tm, tool=getattr(v, "tool", "kissat"))
            return (r.st, solve.named(r.model) if r.model and not all(isinstance(k, str) for k in r.model) else r.model, r.secs, r.info, r.backend)
        if any(self.vcs[i].cons is not None for i in todo):
            solve.build_sweep()
            if SWEEP_TRUST not in self.trust:
                self.trust.append(SWEEP_TRUST)
        if any(self.vcs[i].solver and not hasattr(self.vcs[i], "tool") for i in todo) and INT_TRUST not in self.trust:
            self.trust.append(INT_TRUST)
        go = os.environ.get("VERIF_KEEPGOING") is not None
        if self.hit:
            for w in self.vcs:
                w.res = w.res or solve.Result("killed")
            return
        for k, r in solve.run_parallel(todo, job, NPROC, timeout=BUDGET - (time.time() - T0),
                                       stop_on=lambda r: not go and (self.hit or isinstance(r, tuple) and r[0] == "sat")):
            v = self.vcs[todo[k]]
            if r[0] in ("__exc__", "__killed__"):
                v.res = solve.Result("killed" if r[0] == "__killed__" else "unknown", info=str(r[1])[-2000:])
            else:
                v.res = solve.Result(r[0], r[1], r[2], r[3], r[4])
            for w in dup.get(todo[k], ()):
                w.res = solve.Result(v.res.st, v.res.model, 0.0, v.res.info, v.res.backend)
            if os.environ.get("VERIF_VERBOSE"):
                print(f"  {v.name}: {v.res}", flush=True)
            if v.res.st == "unknown" and not go and not self.hit:
                self.falsify(v)

    def falsify(self, v):
        """search for a failing input on the real code, once per function"""
        if v.con is None or v.con.oracle is None or v.con.replay in self.searched:
            return False
        self.searched.add(v.con.replay)
        r = self.search(v.con)
        if r:
            self.hit = (v, r[0], r[1])
        return bool(r)

    def finish(self):
        try:
            self.discharge()
            return self.verdict()
        except build.BuildError as e:
            print("ERROR build failed:", e)
            return 2

    def verdict(self):
        failed = [v for v in self.vcs if v.res.st == "sat"]
        und = [v for v in self.vcs if v.res.st == "unknown"]
        if not failed and not und:
            und = [v for v in self.vcs if v.res.st == "killed"]     # out of time
        ok = [v for v in self.vcs if v.res.st == "unsat"]
        code = 0
        viol = 0
        if failed or und:
            code, viol = self.report(failed, und)
        if self.errors and code == 0:
            for e in self.errors:
                print("ERROR", e)
            code = 2
        nobl = sum(v.n for v in self.vcs) + self.extra_obl
        if nobl == 0 and code == 0:
            print("ERROR no obligations generated")
            code = 2
        self.evidence(nobl, sum(v.n for v in ok) + self.extra_obl, viol)
        print(f"{self.pid}: {len(ok)}/{len(self.vcs)} verification conditions discharged ({sum(v.n for v in ok) + self.extra_obl} of {nobl} obligations), {len(self.under_contract)} functions under contract, {time.time() - T0:.1f} s, exit {code}")
        return code

    def report(self, failed, und):
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        n = 0
        seen = set()
        hit = self.hit
        # 1. counterexamples replayed on the real code
        for v in failed if hit is None else []:
            if v.con is None or v.fn in seen:
                continue
            ins = [v.res.model.get(n_, 0) for n_, _ in v.con.args]
            bad, out = self.try_input(v.con, ins)
            if bad:
                seen.add(v.fn)
                hit = (v, ins, out)
                break
        # 2. directed search on the real code
        if hit is None:
            for v in failed + und:
                if self.falsify(v):
                    hit = self.hit
                    break
        v = hit[0] if hit else (failed + und)[0]
        path = os.path.join(d, f"{self.pid}.txt")
        with open(path, "w") as f:
            f.write(f"property {self.pid}\nfailed obligation: {v.name}\nverifier answer: {v.res.st} {v.res.info}\n")
            for o in getattr(v, "obs", [])[:40]:
                f.write(f"  covers: {o}\n")
            if v.res.model:
                f.write("verifier counterexample:\n")
                for k, x in sorted(v.res.model.items()):
                    f.write(f"  {k} = {x:#x}\n")
            if hit:
                f.write(f"function {v.con.replay}\ninputs " + " ".join(f"{n_}={x:#x}" if isinstance(x, int) else f"{n_}={x}" for (n_, _), x in zip(v.con.args, hit[1])) + f"\nreal code returned: {fmt_out(hit[2])}\n")
                f.write("replay: cd /verif/replay && echo '" + line(v.con, hit[1]) + "' | RUSTUP_TOOLCHAIN=" + build.TOOLCHAIN + " cargo run -q --offline --features drivers,dispatch" + (",arch" if v.con.arch else "") + "\n")
            f.write("other failed obligations:\n")
            for w in failed + und:
                f.write(f"  {w.name}: {w.res.st} {w.res.info}\n")
        for w in (failed + und)[:10]:
            print(f"not discharged: {w.name}: {w.res.st} {w.res.info[-600:]}")
        if hit:
            print(f"failing input: {line(v.con, hit[1])} -> {fmt_out(hit[2])}")
            print(f"VIOLATION property={self.pid} replay={path}")
        else:
            print(f"VIOLATION property={self.pid} replay={path} no-failing-input-found")
        return 1, 1

    def try_input(self, con, ins):
        if con.oracle is None:
            return False, None
        try:
            o = build.parse_out(build.replay([line(con, ins)], con.arch, timeout=20)[0])
        except build.BuildError as e:
            print("replay build failed:", str(e)[-500:])
            return False, None
        ok = judge(con, ins, o)
        return ok is False, o

    def search(self, con, total=200000, secs=40):
        rng = random.Random(SEED * 1000003 + 17)
        t0 = time.time()
        n = 0
        while time.time() - t0 < secs and n < total and time.time() - T0 < 850:
            batch = []
            for _ in range(4000):
                batch.append(con.samples(rng) if con.samples else [corner(rng, width(t), t) for _, t in con.args])
            try:
                outs = build.replay([line(con, b) for b in batch], con.arch, timeout=20)
            except build.BuildError as e:
                print("replay build failed:", str(e)[-500:])
                return None
            for b, o in zip(batch, outs):
                o = build.parse_out(o)
                if judge(con, b, o) is False:
                    return b, o
            n += len(batch)
        return None

    def evidence(self, nobl, ndis, viol):
        be = {}
        st = 0.0
        for v in self.vcs:
            be.setdefault(v.res.backend if v.res.st == "unsat" else v.res.st, [0, 0, 0.0])
            x = be[v.res.backend if v.res.st == "unsat" else v.res.st]
            x[0] += 1
            x[1] += v.n
            x[2] = round(x[2] + v.res.secs, 2)
            st += v.res.secs
        cov = {
            "obligations": nobl, "discharged": ndis,
            "checker_cmd": f"python3-vt check.py {self.pid}",
            "trusted_base": self.trust,
            "functions_under_contract": self.under_contract,
            "functions_inlined": len(self.functions),
            "callee_contracts_used": self.contract_used,
            "loops_cut_by_proved_invariant": self.cuts,
            "verification_conditions": len(self.vcs),
            "by_backend": {k: {"conditions": a, "obligations": b, "solver_s": c} for k, (a, b, c) in be.items()},
            "solver_s": round(st, 2), "symbolic_execution_s": round(self.symex_s, 2),
            "ir_build_s": build.times,
            "cover_checks_passed": self.covers,
            "bounded_parts": self.bounded,
            "slowest": sorted([(round(v.res.secs, 2), v.name) for v in self.vcs], reverse=True)[:5],
        }
        cov.update(self.notes)
        e = {"property": self.pid, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": self.level,
             "coverage": cov, "assumptions": self.trust, "violations": viol, "wall_s": round(time.time() - T0, 2)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(e, f, indent=1)
            f.write("\n")


def judge(con, ins, o):
    if o == "unknown":
        return None
    try:
        dom = con.oracle(*ins, None)
    except Exception:
        return None
    if dom is None:
        return None
    if o in ("panic", "abort", "hang"):
        return False
    return bool(con.oracle(*ins, o))


def line(con, ins):
    return con.replay + " " + " ".join(f"{x:x}" if isinstance(x, int) else str(x) for x in ins)


def fmt_out(o):
    return " ".join(f"{x:#x}" for x in o) if isinstance(o, list) else str(o)


def corner(rng, w, t=None):
    """random bit pattern biased to corner cases"""
    if w == 0:
        return rng.getrandbits(1)
    m = (1 << w) - 1
    if isinstance(t, fp.Fmt):
        k = rng.randrange(10)
        s = rng.getrandbits(1) << (w - 1)
        mant = rng.choice([0, 1, (1 << t.mb) - 1, 1 << (t.mb - 1), rng.getrandbits(t.mb), rng.getrandbits(t.mb),
                           rng.getrandbits(t.mb) & ((1 << rng.randrange(t.mb + 1)) - 1),
                           (rng.getrandbits(t.mb) << rng.randrange(t.mb + 1)) & ((1 << t.mb) - 1)])
        e = rng.choice([0, 0, 1, t.expmask, t.expmask - 1, t.bias, t.bias + rng.randrange(-4, 5), (t.bias + rng.randrange(-t.mb - 4, t.mb + 5)) & t.expmask, rng.randrange(t.expmask + 1), rng.randrange(t.expmask + 1)])
        if k == 0:
            return s | rng.choice([0, t.inf, t.qnan, 1, t.inf - 1, 1 << t.mb])
        return s | (e << t.mb) | mant
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, 1, 2, m, m - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w // 2)), (1 << (w // 2)) - 1]) & m
    if k == 1:
        return (1 << rng.randrange(w)) & m
    if k == 2:
        return ((1 << rng.randrange(w + 1)) - 1) & m
    if k == 3:
        return rng.getrandbits(w) >> rng.randrange(w)
    if k == 4:
        return (rng.getrandbits(w) << rng.randrange(w)) & m
    if k == 5:
        return (m << rng.randrange(w)) & m ^ (rng.getrandbits(w) & rng.getrandbits(w) & rng.getrandbits(w) if rng.getrandbits(1) else 0)
    if k == 6:
        return rng.randrange(min(m, 2 * w) + 1)
    return rng.getrandbits(w)


_feas = {}


def feasible(ctx, g):
    """is a further loop iteration reachable?"""
    if g is FALSE:
        return False
    r = solve.sat([g], timeout=30)
    return r.st != "unsat"


def int_solver(lemmas=None, first=None):
    """discharge through linear integer arithmetic; what that leaves open goes to the bit-level solver"""
    def run(v, tm):
        from . import intb
        r = intb.sat(v.asserts, min(tm, first or 200), lemmas)
        if r.st == "unknown":
            left = tm - r.secs
            if left > 5:
                q = solve.sat(v.asserts, timeout=min(left, 60))
                q.info = r.info + "; " + q.info
                q.secs += r.secs
                return q
        return r
    return run


def opaque_solver(ops):
    """discharge with the results of the given operations known only to be equal for equal operands;
    what that leaves open goes to the bit-level solver with the operations as they are"""
    def run(v, tm):
        f = band(*v.asserts)
        sub_, con, seen = {}, [], {}
        for t in term.postorder([f]):
            if t.op in ops:
                a = term.substitute(list(t.args), sub_)
                x = sub_[t] = term.var(f"opaque!{len(sub_)}", t.w)
                for b, y in seen.setdefault((t.op, t.w), []):
                    con.append(bor(bnot(band(*[eq(p, q) for p, q in zip(a, b)])), eq(x, y)))
                seen[t.op, t.w].append((a, x))
        if sub_:
            r = solve.sat(term.substitute([f], sub_) + con, timeout=tm)
            if r.st == "unsat":
                r.info += f" {len(sub_)} opaque results"
                return r
        return solve.sat([f], timeout=tm)
    return run


INT_TRUST = "irvc/intb.py: translation to linear integer arithmetic, and z3 as its solver (self-tested by tools/selftest_int.py)"


same = fp.same


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v
