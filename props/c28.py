"""Run-time CPU dispatch: rely-guarantee contracts on the dispatched functions.

Every location that is accessed atomically may be changed by other threads at any time.  The
invariant of such a location is the set of values it starts with or that any execution of a
dispatched function stores, each with the condition on the CPU under which it is stored.  A load
yields any of them (so any interleaving and any memory order is covered), and every store has to
yield one of them.  Under this invariant each call is executed by itself: the machine instructions
it reaches have to be supported by the CPU, and the result has to be the portable one."""
import re
from irvc import fp, solve, term
from irvc.term import *
from irvc.frame import VC, Contract
from irvc.symex import Ptr, Unsupported, ptr, C64

MACHINE = [
    "CPUID and XGETBV return the same values on every processor and at every time",
    "instruction contracts (architecture manuals): VFMADD213/132/231Sx need CPUID.1:ECX.FMA, OSXSAVE and XCR0[2:1]=3; VFMADDSx of AMD needs an AMD or Hygon CPU with CPUID.80000001h:ECX.FMA4, OSXSAVE and XCR0[2:1]=3; XGETBV needs OSXSAVE; a fused multiply-add instruction returns the correctly rounded result, which C20 shows to be the portable one (NaN encodings aside)",
    "weak memory: a relaxed load returns the initial value or one stored by some thread (no values out of thin air)",
]
REGS = ("eax", "ebx", "ecx", "edx")
ENV = ([f"cpuid_{l:x}_{s}_{r}" for l, s in ((0, 0), (1, 0), (7, 0), (7, 1), (0x80000000, 0), (0x80000001, 0)) for r in REGS] + ["xcr0"])


def reg(l, s, r):
    return var(f"cpuid_{l:x}_{s}_{r}", 32)


def bit(t, n):
    return bv2b(extract(n, n, t))


def avx():
    return band(ule(const(1, 32), reg(0, 0, "eax")), bit(reg(1, 0, "ecx"), 27), bit(var("xcr0", 64), 1), bit(var("xcr0", 64), 2))


def vendor(s):
    w = [int.from_bytes(s[k:k + 4], "little") for k in (0, 4, 8)]
    return band(*[eq(reg(0, 0, r), const(v, 32)) for r, v in zip(("ebx", "edx", "ecx"), w)])


def has_fma():
    return band(avx(), bit(reg(1, 0, "ecx"), 12))


def has_fma4():
    return band(avx(), bor(vendor(b"AuthenticAMD"), vendor(b"HygonGenuine")), bit(reg(0x80000001, 0, "ecx"), 16))


class Threads:
    """values of the shared locations"""

    def __init__(self, args, portable):
        self.vals, self.new, self.args, self.portable = {}, {}, args, portable
        self.ran = set()

    def where(self, p):
        if len(p.alts) != 1 or p.alts[0][1] is None or p.alts[0][1].kind != "global" or not isc(p.alts[0][2]):
            raise Unsupported("atomic access through an unknown pointer")
        return p.alts[0][1].name, p.alts[0][2].x

    def load(self, ctx, g, mem, p, ty):
        k = self.where(p)
        v = ctx.load(g, {**mem, **ctx.gmem}, p, ty, 1)
        for c, n in self.vals.get(k, []):
            pick = band(fresh("pick", 0), c)
            if isinstance(v, Ptr):
                v = Ptr([(pick, *ctx.global_ptr(n).alts[0][1:])] + [(band(a, bnot(pick)), o, f) for a, o, f in v.alts])
            else:
                v = ite(pick, n, v)
        return v

    def store(self, ctx, g, mem, p, ty, v):
        k = self.where(p)
        if isinstance(v, Ptr):
            for c, o, off in v.alts:
                if o is None or o.kind != "fn":
                    raise Unsupported("pointer stored that is not a function")
                self.new.setdefault(k, []).append((band(g, c), o.name))
        else:
            self.new.setdefault(k, []).append((g, v))
        return mem

    def asm(self, ctx, i, asm, args, g, mem):
        t, cons, _ = asm
        t = re.sub(r"\\0A|\n", ";", t).strip()
        if re.search(r"\bcpuid\b", t) and re.fullmatch(r"mov \S+, rbx;cpuid;xchg \S+, rbx", t):
            leaf, sub_ = args
            if not (isc(leaf) and isc(sub_)) or f"cpuid_{leaf.x:x}_{sub_.x}_eax" not in ENV:
                raise Unsupported("cpuid of another leaf")
            return tuple(reg(leaf.x, sub_.x, r) for r in ("ebx", "eax", "ecx", "edx")), mem, g
        m = re.fullmatch(r"(vfmadd)(132|213|231|)(s[sd]) ((?:\$\{\d+:x\}(?:, )?)+)", t)
        cs = [c for c in cons.split(",") if not c.startswith("~")]
        if m and sum(c.startswith("=") for c in cs) == 1 and (m.group(3) == "sd") == (self.args[0].w == 64):
            val, ops = {}, [int(x) for x in re.findall(r"\d+", m.group(4))]
            for n, (c, v) in enumerate(zip(cs[1:], args)):
                val[n + 1] = v
                if c == "0":
                    val[0] = v
            if ops[0] != 0 or any(o not in val for o in ops) or len(ops) != (4 if not m.group(2) else 3):
                raise Unsupported("inline asm " + t)
            o = [val[k] for k in ops]
            a, b, c = o[1:] if not m.group(2) else {"132": (o[0], o[2], o[1]), "213": (o[1], o[0], o[2]), "231": (o[1], o[2], o[0])}[m.group(2)]
            need = has_fma() if m.group(2) else has_fma4()
            self.ran.add(m.group(0).split()[0])
            ctx.oblige("ub", f"{m.group(1)}{m.group(2)}{m.group(3)} on a CPU without it", g, need)
            x, y, z = self.args
            if c is z and {a, b} == {x, y}:
                return self.portable, mem, g
            return fresh("fma", x.w), mem, g
        raise Unsupported("inline asm " + t[:80])

    def xgetbv(self, ctx, name, args, i, g, mem):
        if not isc(args[0]) or args[0].x:
            raise Unsupported("xgetbv of another register")
        ctx.oblige("ub", "xgetbv on a system without it", g, band(ule(const(1, 32), reg(0, 0, "eax")), bit(reg(1, 0, "ecx"), 27)))
        return var("xcr0", 64), mem, g


def disjoint(ctx, name, args, i, g, mem):
    """assertion of copies: distinct live objects do not overlap (the accesses have obligations of their own)"""
    a, b = args[:2]
    if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == len(b.alts) == 1 and None not in (a.alts[0][1], b.alts[0][1]) \
            and a.alts[0][1] is not b.alts[0][1] and isc(args[3]) and args[3].x == 1:
        return None, mem, g
    return NotImplemented


def oracle(*a):
    """instruction codes the calls executed: 0 portable, 1 FMA, 2 FMA4, 3 anything else"""
    o = a[-1]
    if o is None:
        return True
    e = dict(zip(ENV + ["at", "what"], a[:-1]))
    av = e["cpuid_0_0_eax"] >= 1 and e["cpuid_1_0_ecx"] >> 27 & 1 and e["xcr0"] & 6 == 6
    v = b"".join(e[f"cpuid_0_0_{r}"].to_bytes(4, "little") for r in ("ebx", "edx", "ecx"))
    ok = {0}
    if av and e["cpuid_1_0_ecx"] >> 12 & 1:
        ok.add(1)
    if av and v in (b"AuthenticAMD", b"HygonGenuine") and e["cpuid_80000001_0_ecx"] >> 16 & 1:
        ok.add(2)
    return set(o) <= ok


def samples(rng):
    v = rng.choice([b"GenuineIntel", b"AuthenticAMD", b"AuthenticAMD", b"HygonGenuine"])
    e = {}
    for n in ENV:
        e[n] = rng.choice([0, 0xffffffff, rng.getrandbits(32), rng.getrandbits(32) | rng.getrandbits(32)])
    e["cpuid_0_0_eax"] = rng.choice([0, 1, 6, 7, 13, 32])
    for k, r in enumerate(("ebx", "edx", "ecx")):
        e[f"cpuid_0_0_{r}"] = int.from_bytes(v[4 * k:4 * k + 4], "little")
    e["cpuid_80000000_0_eax"] = rng.choice([0x80000001, 0x80000008, 0x80000000])
    e["xcr0"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 7, 0xe7])
    return [e[n] for n in ENV] + [rng.randrange(16), rng.randrange(2)]


def dispatch(C, f, name):
    fn = f"{name}: run-time dispatch"
    entry = r"libm::math::(?!arch\b)\w+::" + name
    con = Contract(fn, [(n, "u64" if n == "xcr0" else "u32") for n in ENV] + [("at", "u8"), ("what", "u8")], oracle, "dispatch_" + name, False, samples)
    C.under_contract.append(fn)
    x, y, z = args = [var(n, f.w) for n in "xyz"]
    add_vc = lambda lab, kind, asserts, n=1: C.vcs.append(VC(f"{fn}: {lab}", name, kind, asserts, con, n=n, timeout=300))
    try:
        base, (portable, _, g0) = C.symex(C.module("libm"), entry, args, fmode="uf")
        mod = C.module("libm_arch")
        th = Threads(args, portable)
        for turn in range(4):
            th.new, th.ran = {}, set()
            c, (ret, _, g) = C.symex(mod, entry, args, fmode="uf", contracts={r"(?:[\w:]*::)?_xgetbv": th.xgetbv, r"core::ptr::copy_nonoverlapping::precondition_check": disjoint},
                                     hooks={"atomic_load": th.load, "atomic_store": th.store, "asm": th.asm})
            missing = []
            for k, l in th.new.items():
                old = th.vals.get(k, [])
                for gd, v in l:
                    if not known(gd, v, old):
                        missing.append((k, gd, v))
            if not missing:
                break
            if turn == 3:
                raise Unsupported("the values stored do not settle")
            for k, gd, v in missing:
                # the choices of other loads are another thread's: any of them
                fr = {t: fresh("other", t.w) for t in postorder([gd] + ([] if isinstance(v, str) else [v])) if t.op == "var" and t.x not in ENV}
                th.vals.setdefault(k, []).append((substitute([gd], fr)[0], v if isinstance(v, str) else substitute([v], fr)[0]))
    except (Unsupported, LookupError, RecursionError) as e:
        add_vc("translation", "translate", None)
        C.vcs[-1].res = solve.Result("unknown", info=f"{type(e).__name__}: {e}")
        return
    operands = set("xyz")
    mine = [o for o in c.obs if not any(t.op == "var" and t.x in operands for t in postorder([o.bad]))]
    for o in mine:
        if o.bad is not FALSE:
            add_vc(f"{o.kind} {o.name} in {o.fn}", "safety", c.assumed + [o.bad])
            C.vcs[-1].obs = [o]
    for k, l in th.new.items():
        for n, (gd, v) in enumerate(l):
            add_vc(f"store {n} to {k[0].split('.')[0][-24:]} keeps the invariant", "invariant", [band(gd, bnot(member(v, th.vals.get(k, []))))])
    add_vc("returns when the portable code does", "returns", c.assumed + [g0, bnot(g)])
    add_vc("result is the portable one", "post", [g, g0, bnot(eq(ret, portable))])
    C.notes.setdefault("dispatch", {})[name] = {"shared locations": {k[0]: len(v) for k, v in th.vals.items()}, "instructions reached": sorted(th.ran),
                                                "obligations on the operands (the portable code's, proved under C20)": len(c.obs) - len(mine)}
    # vacuity: every implementation is reached
    for lab, cond in (("fma", has_fma()), ("fma4", band(has_fma4(), bnot(bit(reg(1, 0, "ecx"), 12)))), ("neither", bnot(avx()))):
        r = solve.sat([cond, g, g0], timeout=60)
        if r.st == "sat":
            C.covers += 1
        elif r.st == "unsat":
            C.errors.append(f"{fn}: vacuous for a CPU with {lab}")


def member(v, old):
    return bor(*[band(c, boolc(v == n) if isinstance(v, str) else eq(v, n)) for c, n in old]) if old else FALSE


def known(gd, v, old):
    q = band(gd, bnot(member(v, old)))
    return q is FALSE or solve.sat([q], timeout=60).st == "unsat"


def goals(C):
    C.trust += MACHINE
    dispatch(C, fp.F64, "fma")
    dispatch(C, fp.F32, "fmaf")
