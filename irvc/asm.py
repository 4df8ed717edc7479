"""Contracts of machine instructions reached through inline assembly (x86-64).

Each is the instruction's definition in the architecture manual; a template not listed here is
not translated."""
import re
from .term import *


def operands(cons, args):
    """register or position -> value of inputs, and registers of outputs"""
    outs, vals, regs, k = [], {}, {}, 0
    for c in cons.split(","):
        if c.startswith("~"):
            continue
        m = re.fullmatch(r"=?&?\{?(\w+)\}?", c)
        if c.startswith("="):
            outs.append(m.group(1))
            continue
        v = args[k]
        vals[len(outs) + k] = v
        r = m.group(1)
        regs[outs[int(r)] if r.isdigit() else r] = v
        k += 1
    return outs, vals, regs


def execute(ctx, i, asm, args, g, mem):
    from .symex import Unsupported
    tmpl, cons, fl = asm
    outs, vals, regs = operands(cons, args)
    m = re.fullmatch(r"div \$\{?(\d+)(?::\w)?\}?", tmpl.strip())
    if m and int(m.group(1)) in vals and {"ax", "dx"} <= set(regs):
        d, lo, hi = vals[int(m.group(1))], regs["ax"], regs["dx"]
        w = d.w
        if lo.w == hi.w == w and set(outs) <= {"ax", "dx"}:
            ctx.oblige("ub", "div instruction: quotient does not fit", g, ult(hi, d))
            n, D = concat(hi, lo), zext(d, 2 * w)
            res = {"ax": trunc(udiv(n, D), w), "dx": trunc(urem(n, D), w)}
            out = tuple(res[o] for o in outs)
            return (out if len(out) > 1 else out[0]), mem, g
    if ctx.flat is not None:
        return strings(ctx, tmpl, outs, vals, regs, g, mem)
    raise Unsupported("inline asm " + tmpl[:80])


WORD = {"b": 1, "w": 2, "d": 4, "q": 8}
NAMES = {f"{p}{r}": (r, w) for r in ("ax", "cx", "dx", "bx", "si", "di") for p, w in (("r", 64), ("e", 32))}


def strings(ctx, tmpl, outs, vals, regs, g, mem):
    """straight-line code of string instructions, moves and additions of constants; an aligned
    16-byte load.  A repeated move is the copy of the whole range as it was before, under the
    obligation that the source does not overlap the destination in the direction of the copy."""
    from .symex import Ptr, Unsupported, ptr
    K = lambda v: const(v, 64)
    num = lambda v: ctx.p2i(v) if isinstance(v, Ptr) else v
    flat = ctx.flat
    isp = {r for r, v in regs.items() if isinstance(v, Ptr)}
    m = re.fullmatch(r"(?:movdqa|movdqu) \$\{0:x\}, \[\$\{1:q\}\]", tmpl.strip())
    if m and len(outs) == 1:
        a = num(vals[1])
        if tmpl.strip().startswith("movdqa"):
            ctx.oblige("memory", "movdqa address not aligned", g, eq(and_(a, K(15)), K(0)))
        from .llparse import ity
        v = ctx.load_flat(g, mem, flat, a, 16, ity(128))
        return (extract(63, 0, v), extract(127, 64, v)), mem, g
    m = re.fullmatch(r"mov \$\{?0(?::q)?\}?, \[\$\{?1(?::q)?\}?\]", tmpl.strip())
    if m and len(outs) == 1:
        from .llparse import ity
        return ctx.load_flat(g, mem, flat, num(vals[1]), 8, ity(64)), mem, g
    R = {r: resize(num(v), 64) for r, v in regs.items()}
    down = False
    M = mem[flat]

    def access(kind, lo, n):
        h = ctx.hooks.get("flat_" + kind)
        if h:
            h(ctx, band(g, ne(n, K(0))), lo, n)
    for ln in re.split(r"\\0A|\n", tmpl):
        ln = ln.strip()
        m = re.fullmatch(r"rep (movs|stos)([bwdq])(?: .*)?", ln)
        if m:
            z = WORD[m.group(2)]
            k = z.bit_length() - 1
            cnt, di = R["cx"], R["di"]
            ctx.oblige("memory", ln + ": count out of range", g, ult(cnt, K(1 << 60)))
            n = shl(cnt, K(k))
            dlo = di if not down else sub(add(di, K(z)), n)
            access("write", dlo, n)
            if m.group(1) == "movs":
                si = R["si"]
                slo = si if not down else sub(add(si, K(z)), n)
                access("read", slo, n)
                d = sub(dlo, slo) if not down else sub(slo, dlo)
                ctx.oblige("memory", ln + ": source overwritten before it is read", g, bor(ule(n, d), eq(d, K(0))))
                M = mfun(M, n, dlo, slo)
                R["si"] = add(si, n) if not down else sub(si, n)
            else:
                M = mloop(M, cnt, dlo, trunc(R["ax"], 8 * z), fresh("J", 64), z, True)
            R["di"] = add(di, n) if not down else sub(di, n)
            R["cx"] = K(0)
            continue
        if ln in ("std", "cld"):
            down = ln == "std"
            continue
        m = re.fullmatch(r"(add|sub) (\w+), (\d+)", ln)
        if m and m.group(2) in NAMES and NAMES[m.group(2)][1] == 64 and NAMES[m.group(2)][0] in R:
            r, c = NAMES[m.group(2)][0], K(int(m.group(3)))
            R[r] = add(R[r], c) if m.group(1) == "add" else sub(R[r], c)
            continue
        m = re.fullmatch(r"mov (\w+), (?:\$\{?(\d+)(?::[qk])?\}?|(\w+))", ln)
        if m and m.group(1) in NAMES:
            r, w = NAMES[m.group(1)]
            if m.group(2) is not None:
                v = resize(num(vals[int(m.group(2))]), 64)
            elif m.group(3) in NAMES and NAMES[m.group(3)][0] in R:
                v = R[NAMES[m.group(3)][0]]
            else:
                raise Unsupported("inline asm " + ln)
            R[r] = v if w == 64 else zext(trunc(v, 32), 64)
            continue
        raise Unsupported("inline asm " + ln)
    if down:
        ctx.oblige("ub", "direction flag left set", g, FALSE)
    mem = dict(mem)
    mem[flat] = M
    out = tuple(ptr(flat, R[o]) if o in isp else R[o] for o in outs)
    return (out if len(out) > 1 else out[0]), mem, g
