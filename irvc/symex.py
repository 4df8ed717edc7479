"""Symbolic execution of LLVM IR functions with state merging; produces proof obligations."""
import re, time
from .term import *
from . import fp
from .llparse import *


class Unsupported(Exception):
    pass


class Obj:
    _n = 0

    def __init__(self, name, size, align=1, kind="alloca"):
        Obj._n += 1
        self.id = Obj._n
        self.name, self.size, self.align, self.kind = name, size, align, kind

    def __repr__(self):
        return f"<{self.kind} {self.name}#{self.id} size {self.size}>"


class Ptr:
    """alternatives: list of (cond, obj or None, offset); obj None: integer address"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f"Ptr{self.alts}"


def ptr(obj, off):
    return Ptr([(TRUE, obj, off)])


C64 = lambda v: const(v, 64)
NULL = ptr(None, C64(0))


class Ob:
    """obligation: pre & facts |= not bad"""
    __slots__ = ("kind", "name", "bad", "nfacts", "fn", "res")

    def __init__(self, kind, name, bad, nfacts, fn):
        self.kind, self.name, self.bad, self.nfacts, self.fn = kind, name, bad, nfacts, fn
        self.res = None                     # answer of the back end, if discharged during execution

    def __repr__(self):
        return f"<{self.kind} {self.name} in {self.fn}>"


class Ctx:
    def __init__(self, mod, contracts=None, fmode="exact", feasible=None, max_unroll=300, hooks=None):
        self.mod = mod
        self.contracts = contracts or {}    # regex -> handler(ctx, call)
        self._ccache = {}
        self.obs = []
        self.facts = []                     # proved-by-obligation or contract-provided facts
        self.assumed = []                   # contract-provided (trusted by modularity) facts
        self.fmode = fmode
        self.gobj = {}
        self.gmem = {}
        self.feasible = feasible
        self.max_unroll = max_unroll
        self.deadline = None
        self.functions = {}                 # pretty name -> count
        self.trusted = set()
        self.hooks = hooks or {}
        self.loophook = None
        self.stack = []
        self.frames = []                    # arguments of the active calls
        self.verbose = False
        self.cutoff = []                    # guards of back edges accounted for by a loop invariant
        self.pre = []                       # precondition, for proofs made during execution
        self.loops = {}                     # functions with loops cut by a proved invariant
        self.unrolled = {}
        self.nins = 0
        self.nan_ops = 0
        self.uf_used = set()
        self.bounds_checked = 0
        self.contract_used = {}
        self.defs = []                      # results of contract calls: (result variables, arguments, compute)

    # ---------------------------------------------------------- obligations
    def oblige(self, kind, name, guard, cond_ok):
        bad = band(guard, bnot(cond_ok))
        self.obs.append(Ob(kind, name, bad, len(self.facts), self.stack[-1] if self.stack else "?"))
        if bad is not FALSE:
            self.facts.append(bnot(bad))

    def assume(self, guard, cond):
        f = implies(guard, cond)
        if f is not TRUE:
            self.facts.append(f)
            self.assumed.append(f)

    # ---------------------------------------------------------- globals
    def global_ptr(self, name):
        if name in self.gobj:
            return ptr(self.gobj[name], C64(0))
        if name in self.mod.defs or name in self.mod.decls:
            o = Obj(name, 0, 16, "fn")
            self.gobj[name] = o
            return ptr(o, C64(0))
        ty, v, cst = self.mod.glob(name)
        o = Obj(name, sizeof(ty), 16, "const" if cst else "global")
        self.gobj[name] = o
        cells = {}
        if v is not None:
            self._init(cells, 0, ty, v)
        self.gmem[o] = cells
        return ptr(o, C64(0))

    def _init(self, cells, off, ty, v):
        if v[0] == "bytes":
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, const(b, 8))
        elif v[0] == "agg":
            if ty.k in ("st", "pst"):
                offs, _ = layout(ty)
                for o, (t, x) in zip(offs, v[1]):
                    self._init(cells, off + o, t, x)
            else:
                s = sizeof(ty.e)
                for i, (t, x) in enumerate(v[1]):
                    self._init(cells, off + i * s, t, x)
        elif v[0] == "zero":
            for i in range(sizeof(ty)):
                cells[off + i] = (1, const(0, 8))
        elif v[0] == "undef":
            pass
        else:
            x = self.val({}, ty, v)
            if isinstance(x, T) and x.w == 0:
                x = b2bv(x, 8)
            elif isinstance(x, T) and x.w % 8:
                x = zext(x, sizeof(ty) * 8)
            cells[off] = (sizeof(ty), x)

    # ---------------------------------------------------------- values
    def undef(self, ty):
        if ty.k in ("st", "pst"):
            return tuple(self.undef(t) for t in ty.e)
        if ty.k in ("arr", "vec"):
            return tuple(self.undef(ty.e) for _ in range(ty.n))
        if ty.k == "ptr":
            return ptr(None, fresh("undef", 64))
        if ty.k == "i":
            return fresh("undef", 0 if ty.n == 1 else ty.n)
        if ty.k == "f":
            return fresh("undef", ty.n)
        return None

    def zero(self, ty):
        if ty.k in ("st", "pst"):
            return tuple(self.zero(t) for t in ty.e)
        if ty.k in ("arr", "vec"):
            return tuple(self.zero(ty.e) for _ in range(ty.n))
        if ty.k == "ptr":
            return NULL
        return FALSE if ty.n == 1 else const(0, ty.n)

    def val(self, env, ty, v):
        k = v[0]
        if k == "l":
            return env[v[1]]
        if k == "c":
            if ty.k == "i" and ty.n == 1:
                return TRUE if v[1] & 1 else FALSE
            return const(v[1], ty.n)
        if k == "g":
            return self.global_ptr(v[1])
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef(v[1])
        if k == "zero":
            return self.zero(v[1])
        if k == "agg":
            return tuple(self.val(env, t, x) for t, x in v[1])
        if k == "gep":
            return self.gep(env, v[1], v[2])
        if k == "cast":
            _, op, t, x, t2 = v
            y = self.val(env, t, x)
            if op == "ptrtoint":
                return resize(self.p2i(y), t2.n)
            if op == "inttoptr":
                return self.i2p(y)
            return y
        if k == "bytes":
            return tuple(const(b, 8) for b in v[1])
        raise Unsupported("value " + k)

    def base(self, o):
        if o.kind == "flat":
            return C64(0)
        b = getattr(o, "_base", None)
        if b is None:
            k = max(0, o.align.bit_length() - 1)
            v = var(f"addr!{o.name}#{o.id}", 64 - k)
            b = concat(v, const(0, k)) if k else v
            o._base = b
            self.assume(TRUE, ult(C64(4095), b))
            self.assume(TRUE, ult(b, C64((1 << 63) - (o.size or 0) - 4096)))
        return b

    def p2i(self, p):
        r = None
        for c, o, off in reversed(p.alts):
            x = off if o is None else add(self.base(o), off)
            r = x if r is None else ite(c, x, r)
        return r

    def i2p(self, x):
        # recover provenance syntactically: base + off
        if self.flat is not None:
            return ptr(self.flat, x)
        return ptr(None, x)

    flat = None

    def padd(self, p, off):
        if isc(off) and off.x == 0:
            return p
        return Ptr([(c, o, add(f, off)) for c, o, f in p.alts])

    def gep(self, env, bt, ops):
        p = self.val(env, *ops[0])
        off = None
        t = bt
        for i, (ty, v) in enumerate(ops[1:]):
            x = self.val(env, ty, v)
            if ty.n < 64:
                x = sext(x, 64)
            if i == 0:
                d = mul(x, C64(sizeof(t)))
            elif t.k in ("st", "pst"):
                offs, _ = layout(t)
                d = C64(offs[x.x])
                t = t.e[x.x]
            else:
                t = t.e
                d = mul(x, C64(sizeof(t)))
            off = d if off is None else add(off, d)
        return self.padd(p, off) if off is not None else p

    # ---------------------------------------------------------- memory
    def cells(self, mem, o):
        c = mem.get(o)
        if c is None:
            c = self.gmem.get(o)
        if c is None:
            c = {}
        return c

    def _asbv(self, v, size):
        if isinstance(v, Ptr):
            return self.p2i(v)
        return v

    def _byte(self, cells, i, memo=None):
        c = cells.get(i)
        if c is not None and c[0] == 1:
            return c[1]
        for o, (s, v) in cells.items():
            if o <= i < o + s:
                v = self._asbv(v, s)
                return extract(8 * (i - o) + 7, 8 * (i - o), v)
        return None

    def rd(self, cells, off, size):
        c = cells.get(off)
        if c is not None:
            if c[0] == size:
                return c[1]
            if c[0] > size:
                return trunc(self._asbv(c[1], c[0]), 8 * size)
        r = None
        i = 0
        while i < size:
            c = cells.get(off + i)
            if c is not None and c[0] <= size - i:
                b = self._asbv(c[1], c[0])
                i += c[0]
            else:
                b = self._byte(cells, off + i)
                if b is None:
                    b = fresh("uninit", 8)
                i += 1
            r = b if r is None else concat(b, r)
        return r

    def wr(self, cells, off, size, v):
        """in place on a private copy"""
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        for o, (s, x) in list(cells.items()):
            if o < off + size and off < o + s:
                del cells[o]
                if o < off or o + s > off + size:
                    x = self._asbv(x, s)
                    for k in range(s):
                        if not off <= o + k < off + size:
                            cells[o + k] = (1, extract(8 * k + 7, 8 * k, x))
        cells[off] = (size, v)

    def _cands(self, o, off, size, guard):
        """possible concrete offsets of a symbolic offset"""
        lo, hi = urange(off)
        hi = min(hi, o.size - size)
        step = 1 << min(_tz_(off), 12)
        lo = (lo + step - 1) // step * step
        n = (hi - lo) // step + 1
        if n > 4096:
            raise Unsupported("symbolic offset range")
        return range(lo, hi + 1, step)

    def load(self, guard, mem, p, ty, align=1, what="load"):
        size = sizeof(ty)
        res = None
        alts = p.alts
        for c, o, off in reversed(alts):
            if o is None:
                self.oblige("memory", f"{what} through invalid pointer", band(guard, c), FALSE)
                v = self.undef(ty)
            elif o.kind == "flat":
                v = self.load_flat(band(guard, c), mem, o, off, size, ty)
            else:
                v = self.load_obj(band(guard, c), mem, o, off, size, ty, what)
            res = v if res is None else self.merge(c, v, res)
        return res

    def conv(self, raw, ty):
        """raw cell value -> value of type"""
        if ty.k == "ptr":
            if isinstance(raw, Ptr):
                return raw
            return self.i2p(raw)
        if isinstance(raw, Ptr):
            raw = self.p2i(raw)
        if ty.k == "i":
            if ty.n == 1:
                return bv2b(extract(0, 0, raw))
            return trunc(raw, ty.n) if raw.w > ty.n else raw
        if ty.k == "f":
            return raw
        raise Unsupported("load type " + repr(ty))

    def load_obj(self, guard, mem, o, off, size, ty, what):
        if ty.k in ("st", "pst", "arr", "vec"):
            offs = layout(ty)[0] if ty.k in ("st", "pst") else [i * sizeof(ty.e) for i in range(ty.n)]
            tys = ty.e if ty.k in ("st", "pst") else [ty.e] * ty.n
            return tuple(self.load_obj(guard, mem, o, add(off, C64(k)), sizeof(t), t, what) for k, t in zip(offs, tys))
        cells = self.cells(mem, o)
        self.bounds_checked += 1
        if isc(off):
            if off.x + size > o.size:
                self.oblige("memory", f"{what} out of bounds of {o.name}", guard, FALSE)
                return self.undef(ty)
            return self.conv(self.rd(cells, off.x, size), ty)
        self.oblige("memory", f"{what} out of bounds of {o.name}", guard, ule(off, C64(o.size - size)))
        cands = list(self._cands(o, off, size, guard))
        vals = [self.conv(self.rd(cells, k, size), ty) for k in cands]
        if ty.k == "ptr":
            r = vals[-1]
            for k, v in zip(reversed(cands[:-1]), reversed(vals[:-1])):
                r = self.merge(eq(off, C64(k)), v, r)
            return r
        # balanced mux on index bits
        return self._muxtree(off, cands, vals)

    def _muxtree(self, off, cands, vals):
        if len(cands) == 1:
            return vals[0]
        m = len(cands) // 2
        return ite(ult(off, C64(cands[m])), self._muxtree(off, cands[:m], vals[:m]), self._muxtree(off, cands[m:], vals[m:]))

    def store(self, guard, mem, p, ty, v, align=1, what="store"):
        """returns new mem"""
        size = sizeof(ty)
        if ty.k == "i" and isinstance(v, T):
            if v.w == 0:
                v = b2bv(v, 8)
            elif v.w != size * 8:
                v = zext(v, size * 8)
        multi = len(p.alts) > 1
        for c, o, off in p.alts:
            g = band(guard, c)
            if o is None or o.kind in ("const", "fn"):
                self.oblige("memory", f"{what} through invalid pointer", g, FALSE)
                continue
            if o.kind == "flat":
                mem = self.store_flat(g, c, mem, o, off, size, v, multi)
                continue
            mem = self.store_obj(g, c, mem, o, off, size, ty, v, multi, what)
        return mem

    def store_obj(self, g, c, mem, o, off, size, ty, v, multi, what):
        if ty.k in ("st", "pst", "arr", "vec"):
            offs = layout(ty)[0] if ty.k in ("st", "pst") else [i * sizeof(ty.e) for i in range(ty.n)]
            tys = ty.e if ty.k in ("st", "pst") else [ty.e] * ty.n
            for k, t, x in zip(offs, tys, v):
                if isinstance(x, T) and x.w == 0:
                    x = b2bv(x, 8)
                if x is None:
                    continue
                mem = self.store_obj(g, c, mem, o, add(off, C64(k)), sizeof(t), t, x, multi, what)
            return mem
        cells = dict(self.cells(mem, o))
        self.bounds_checked += 1
        if isc(off):
            if off.x + size > o.size:
                self.oblige("memory", f"{what} out of bounds of {o.name}", g, FALSE)
                return mem
            if multi:
                old = self.rd(cells, off.x, size)
                v = self.merge(c, v, old)
            self.wr(cells, off.x, size, v)
        else:
            self.oblige("memory", f"{what} out of bounds of {o.name}", g, ule(off, C64(o.size - size)))
            for k in self._cands(o, off, size, g):
                old = self.rd(cells, k, size)
                if isinstance(v, Ptr) and not isinstance(old, Ptr):
                    old = self.i2p(old)
                self.wr(cells, k, size, self.merge(band(c, eq(off, C64(k))), v, old))
        mem = dict(mem)
        mem[o] = cells
        return mem

    # flat byte memory: obligations are produced by the hook (access ranges)
    def load_flat(self, guard, mem, o, off, size, ty):
        h = self.hooks.get("flat_read")
        if h:
            h(self, guard, off, size)
        m = mem[o]
        n = size
        r = None
        for i in range(n):
            b = select(m, add(off, C64(i)))
            r = b if r is None else concat(b, r)
        return self.conv(r, ty)

    def store_flat(self, g, c, mem, o, off, size, v, multi):
        h = self.hooks.get("flat_write")
        if h:
            h(self, g, off, size)
        m = mem[o]
        if isinstance(v, Ptr):
            v = self.p2i(v)
        m2 = m
        for i in range(size):
            m2 = store(m2, add(off, C64(i)), extract(8 * i + 7, 8 * i, v))
        if multi:
            m2 = mk("ite", (c, m2, m), -1) if not isc(c) else (m2 if c.x else m)
        mem = dict(mem)
        mem[o] = m2
        return mem

    # ---------------------------------------------------------- merging
    def merge(self, c, a, b):
        """ite on arbitrary values"""
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, T) and isinstance(b, T):
            if a.w == -1:
                return mk("ite", (c, a, b), -1)
            return ite(c, a, b)
        if isinstance(a, tuple):
            return tuple(self.merge(c, x, y) for x, y in zip(a, b))
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, Ptr) and isinstance(b, T):
            b = self.i2p(b)
        if isinstance(b, Ptr) and isinstance(a, T):
            a = self.i2p(a)
        if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1]:
            return ptr(a.alts[0][1], ite(c, a.alts[0][2], b.alts[0][2]))
        alts = []
        for (x, o, f) in a.alts:
            alts.append([band(c, x), o, f])
        for (x, o, f) in b.alts:
            cc = band(bnot(c), x)
            for al in alts:
                if al[1] is o:
                    al[2] = ite(al[0], al[2], f)
                    al[0] = bor(al[0], cc)
                    break
            else:
                alts.append([cc, o, f])
        alts = [tuple(x) for x in alts if x[0] is not FALSE]
        if len(alts) == 1:
            alts = [(TRUE, alts[0][1], alts[0][2])]
        return Ptr(alts)

    def merge_mem(self, c, m1, m2):
        if m1 is m2:
            return m1
        r = {}
        for o in m1:
            if o not in m2:
                r[o] = m1[o]
                continue
            a, b = m1[o], m2[o]
            if a is b:
                r[o] = a
            elif isinstance(a, T):
                r[o] = self.merge(c, a, b)
            else:
                r[o] = self.merge_cells(c, a, b)
        for o in m2:
            if o not in m1:
                # object only initialised on one side
                r[o] = m2[o]
        return r

    def merge_cells(self, c, a, b):
        a, b = dict(a), dict(b)
        r = {}
        for o in list(a):
            if o in b and a[o][0] == b[o][0]:
                x, y = a.pop(o), b.pop(o)
                r[o] = (x[0], self.merge(c, x[1], y[1]))
        if a or b:
            bytes_ = set()
            for m in (a, b):
                for o, (s, v) in m.items():
                    bytes_.update(range(o, o + s))
            fulla, fullb = {**a, **r}, {**b, **r}
            only_a = not b
            if not b or not a:
                src = a or b
                # other side uninitialised there
                for o, (s, v) in src.items():
                    r[o] = (s, v)
                return r
            for i in bytes_:
                if i in r:
                    continue
                x, y = self._byte(a, i), self._byte(b, i)
                if x is None:
                    r[i] = (1, y)
                elif y is None:
                    r[i] = (1, x)
                else:
                    r[i] = (1, self.merge(c, x, y))
        return r

    def merge_states(self, st):
        """st: list of (guard, env, mem)"""
        g, env, mem = st[0]
        for g2, env2, mem2 in st[1:]:
            if g2 is FALSE:
                continue
            if g is FALSE:
                g, env, mem = g2, env2, mem2
                continue
            la, lb = lits(g), lits(g2)
            sa, sb = {x.id for x in la}, {x.id for x in lb}
            ra = [x for x in la if x.id not in sb]
            rb = [x for x in lb if x.id not in sa]
            if len(ra) <= len(rb) and ra:
                c = band(*ra)
            elif rb:
                c = bnot(band(*rb))
            else:
                c = g
            e = {}
            for k, v in env.items():
                if k in env2:
                    e[k] = self.merge(c, v, env2[k])
            env = e
            mem = self.merge_mem(c, mem, mem2)
            g = bor(g, g2)
        return g, env, mem

    # ---------------------------------------------------------- functions
    def noreturn(self, name):
        d = self.mod.decls.get(name)
        pn = self.mod.pretty.get(name, name)
        if name in self.mod.defs:
            line = self.mod.lines[self.mod.defs[name][0]]
        else:
            line = d or ""
        m = re.search(r"#(\d+)", line.split(")")[-1]) if line else None
        if m:
            a = self._attr(m.group(1))
            if re.search(r"\bnoreturn\b", a):
                return True
        return bool(re.match(r"core::panicking::|core::(option|result)::(unwrap|expect)_failed|core::slice::index::slice_.*fail", pn)) and name in self.mod.decls

    def _attr(self, n):
        t = getattr(self.mod, "_attrs", None)
        if t is None:
            t = {}
            for l in self.mod.lines:
                if l.startswith("attributes #"):
                    k, v = l.split(" = ", 1)
                    t[k[len("attributes #"):].strip()] = v
            self.mod._attrs = t
        return t.get(n, "")

    def doomed(self, f):
        d = getattr(f, "_doomed", None)
        if d is not None:
            return d
        d = {}
        for b, ins in f.blocks.items():
            why = None
            for i in ins:
                if i.op == "call" and i.x[0] and i.x[0][0] == "g" and self.noreturn(i.x[0][1]):
                    why = self.panic_name(i)
                    break
            if why is None and ins[-1].op in ("unreachable", "resume"):
                # side-effect free unreachable
                if not any(i.op in ("call", "store") for i in ins):
                    why = "unreachable code"
            if why:
                d[b] = why
        ch = True
        while ch:
            ch = False
            for b in f.order:
                if b in d or b not in f.rank:
                    continue
                s = f.succ[b]
                if s and all(x in d for x in s) and all(i.op != "call" or (i.x[0] and i.x[0][1].startswith("@llvm.")) or True for i in f.blocks[b]) and b != f.entry:
                    # all successors panic: block itself is doomed if everything it calls is harmless
                    d[b] = d[s[0]]
                    ch = True
        f._doomed = d
        return d

    def panic_name(self, i):
        callee = i.x[0][1]
        n = self.mod.pretty.get(callee, callee)
        n = re.sub(r"^core::panicking::(panic_const::)?", "panic: ", n)
        for t, v in reversed(i.a):
            if v[0] == "g" and v[1] in self.mod.globs:
                loc = self.srcloc(v[1])
                if loc:
                    return f"{n} at {loc}"
        return n

    def srcloc(self, g):
        try:
            ty, v, c = self.mod.glob(g)
            if v[0] == "agg" and len(v[1]) == 2 and v[1][0][1][0] == "g":
                fty, fv, _ = self.mod.glob(v[1][0][1][1])
                b = v[1][1][1][1]
                line = int.from_bytes(b[8:12], "little")
                file = fv[1].rstrip(b"\0").decode()
                if line:
                    return f"{file}:{line}"
        except Exception:
            pass
        return None

    def call_fn(self, name, args, mem, guard):
        f = self.mod.fn(name)
        return self.exec_fn(f, args, mem, guard)

    def exec_fn(self, f, args, mem, guard):
        """-> (ret, mem, guard_at_return)"""
        self.functions[f.pretty] = self.functions.get(f.pretty, 0) + 1
        if len(self.stack) > 60:
            raise Unsupported("recursion in " + f.pretty)
        self.stack.append(f.pretty)
        try:
            return self._exec_fn(f, args, mem, guard)
        finally:
            self.stack.pop()

    def _exec_fn(self, f, args, mem, guard):
        env = {}
        for (t, n), v in zip(f.params, args):
            if n:
                env[n] = v
        doomed = self.doomed(f)
        if f.entry in doomed:
            self.oblige("panic", doomed[f.entry], guard, FALSE)
            return None, mem, FALSE
        self.frames.append(args)
        try:
            rets, _, _ = self.run_blocks(f, {f.entry: [(guard, env, mem, None)]}, doomed)
        finally:
            self.frames.pop()
        if not rets:
            return None, mem, FALSE
        st = [(g, {"r": v}, m) for g, v, m in rets]
        g, e, m = self.merge_states(st)
        # drop dead stack objects of this frame
        return e.get("r"), m, g

    def run_blocks(self, f, pend, doomed, region=None, head=None):
        """executes pending blocks; with a region, states leaving it and states going back to its
        head are collected instead of executed -> (returns, states leaving, states going back)"""
        rets, left, back = [], {}, []
        rank = f.rank
        iters = {}
        while pend:
            b = min(pend, key=lambda x: rank[x])
            sts = pend.pop(b)
            if b in f.loops and b != head:
                isback = any(s[3] is not None and (s[3], b) in f.back for s in sts)
                if isback:
                    iters[b] = iters.get(b, 0) + 1
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported(f"loop in {f.pretty} not unrolled within the time limit")
                    if iters[b] > self.max_unroll:
                        raise Unsupported(f"loop in {f.pretty} not unrolled within {self.max_unroll}")
                else:
                    iters[b] = 0
                    if self.loophook:
                        r = self.loophook(self, f, b, sts, doomed)
                        if r is not None:
                            rets.extend(r[0])
                            for tgt, states in r[1].items():
                                pend.setdefault(tgt, []).extend(states)
                            continue
            # evaluate phis per incoming state
            merged = []
            for g, e, m, src in sts:
                if g is FALSE:
                    continue
                merged.append((g, self.phis(f, b, e, src) if src != "cut" else e, m))
            if not merged:
                continue
            g, env, mem = self.merge_states(merged)
            if g is FALSE:
                continue
            if b in f.loops and iters.get(b, 0) >= 3 and self.feasible and (iters[b] % 1 == 0):
                if not self.feasible(self, g):
                    self.obs.append(Ob("unwind", f"loop iteration bound in {f.pretty}", g, len(self.facts), f.pretty))
                    self.facts.append(bnot(g))
                    continue
            if b in f.loops:
                self.unrolled[f.pretty] = max(self.unrolled.get(f.pretty, 0), iters.get(b, 0))
            out = self.exec_block(f, b, g, env, mem, doomed)
            for o in out:
                if o[0] == "ret":
                    rets.append(o[1:])
                    continue
                _, tgt, g2, e2, m2 = o
                if g2 is FALSE:
                    continue
                if region is not None and tgt == head:
                    back.append((g2, e2, m2, b))
                elif region is not None and tgt not in region:
                    left.setdefault(tgt, []).append((g2, e2, m2, b))
                else:
                    pend.setdefault(tgt, []).append((g2, e2, m2, b))
        return rets, left, back

    def phis(self, f, b, env, src):
        e = {k: env[k] for k in f.live[b] if k in env}
        for i in f.blocks[b]:
            if i.op != "phi":
                break
            for v, pb in i.x:
                if pb == src:
                    e[i.dst] = self.val(env, i.ty, v)
                    break
        return e

    def exec_block(self, f, b, g, env, mem, doomed):
        for i in f.blocks[b]:
            op = i.op
            if op == "phi":
                continue
            self.nins += 1
            if op == "br":
                if len(i.x) == 1:
                    return self.goto(f, i.x[0], g, env, mem, doomed)
                c = self.val(env, ity(1), i.a[0])
                if i.x[0] == i.x[1]:
                    return self.goto(f, i.x[0], g, env, mem, doomed)
                out = []
                t, e = i.x
                if t in doomed and e in doomed:
                    self.oblige("panic", doomed[t], g, FALSE)
                    return []
                if t in doomed:
                    self.oblige("panic", doomed[t], g, bnot(c))
                    return self.goto(f, e, g, env, mem, doomed)
                if e in doomed:
                    self.oblige("panic", doomed[e], g, c)
                    return self.goto(f, t, g, env, mem, doomed)
                g1, g2 = band(g, c), band(g, bnot(c))
                if g1 is not FALSE:
                    out += self.goto(f, t, g1, env, mem, doomed)
                if g2 is not FALSE:
                    out += self.goto(f, e, g2, env, mem, doomed)
                return out
            if op == "switch":
                v = self.val(env, i.ty, i.a[0])
                if v.w == 0:
                    v = b2bv(v)
                d, cs = i.x
                out = []
                rest = g
                byt = {}
                for k, tgt in cs:
                    byt.setdefault(tgt, []).append(eq(v, const(k, v.w)))
                live = g
                dc = TRUE
                for tgt, cl in byt.items():
                    c = bor(*cl)
                    if tgt in doomed:
                        self.oblige("panic", doomed[tgt], g, bnot(c))
                        if d not in doomed:
                            dc = band(dc, bnot(c))
                        continue
                    gg = band(g, c)
                    if gg is not FALSE:
                        out += self.goto(f, tgt, gg, env, mem, doomed)
                    dc = band(dc, bnot(c))
                if d in doomed:
                    self.oblige("panic", doomed[d], band(g, dc), FALSE)
                else:
                    gg = band(g, dc)
                    if gg is not FALSE:
                        out += self.goto(f, d, gg, env, mem, doomed)
                return out
            if op == "ret":
                v = self.val(env, i.ty, i.a[0]) if i.a else None
                return [("ret", g, v, mem)]
            if op == "unreachable":
                self.oblige("panic", "unreachable code", g, FALSE)
                return []
            if op == "store":
                al, at, fl = i.x
                if at and "atomic_store" in self.hooks:
                    mem = self.hooks["atomic_store"](self, g, mem, self.val(env, PTR, i.a[1]), i.ty, self.val(env, i.ty, i.a[0]))
                    continue
                mem = self.store(g, mem, self.val(env, PTR, i.a[1]), i.ty, self.val(env, i.ty, i.a[0]), al)
                continue
            if op == "load":
                al, at, fl = i.x
                if at and "atomic_load" in self.hooks:
                    env[i.dst] = self.hooks["atomic_load"](self, g, mem, self.val(env, PTR, i.a[0]), i.ty)
                    continue
                env[i.dst] = self.load(g, mem, self.val(env, PTR, i.a[0]), i.ty, al)
                continue
            if op == "alloca":
                o = Obj(i.dst, sizeof(i.ty), i.x)
                env[i.dst] = ptr(o, C64(0))
                mem = dict(mem)
                mem[o] = {}
                continue
            if op == "call":
                r = self.call(f, i, g, env, mem)
                if r is None:
                    return []
                v, mem, g2 = r
                if g2 is FALSE:
                    return []
                g = g2
                if i.dst:
                    env[i.dst] = v
                continue
            env[i.dst] = self.simple(f, i, g, env)
        raise Exception("block without terminator")

    def goto(self, f, t, g, env, mem, doomed):
        if t in doomed:
            self.oblige("panic", doomed[t], g, FALSE)
            return []
        return [("go", t, g, dict(env), mem)]

    # ---------------------------------------------------------- simple instructions
    def simple(self, f, i, g, env):
        op = i.op
        ty = i.ty
        V = lambda k, t=None: self.val(env, t or ty, i.a[k])
        if op in INTBIN:
            a, b = V(0), V(1)
            if isinstance(a, tuple):
                return tuple(self.intbin(op, x, y, g, i) for x, y in zip(a, b))
            return self.intbin(op, a, b, g, i)
        if op == "icmp":
            a, b = V(0), V(1)
            if isinstance(a, tuple):
                return tuple(self.icmp(i.x, x, y) for x, y in zip(a, b))
            return self.icmp(i.x, a, b)
        if op == "select":
            c = self.val(env, i.x, i.a[0])
            a, b = V(1), V(2)
            if isinstance(c, tuple):
                return tuple(self.merge(k, x, y) for k, x, y in zip(c, a, b))
            return self.merge(c, a, b)
        if op in CASTS:
            t0, fl = i.x
            a = self.val(env, t0, i.a[0])
            return self.cast(op, t0, ty, a, g)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = V(0), V(1)
            return self.fbin(op, fp.BYW[ty.n], a, b)
        if op == "fneg":
            return fp.fneg(fp.BYW[ty.n], V(0))
        if op == "freeze":
            return V(0)
        if op == "fcmp":
            return self.fcmp(i.x, fp.BYW[ty.n], V(0), V(1))
        if op == "getelementptr":
            return self.gep(env, i.x[0], i.x[1])
        if op == "extractvalue":
            v = V(0)
            for k in i.x:
                v = v[k]
            return v
        if op == "insertvalue":
            ix, t2 = i.x
            return self.ins(V(0), ix, self.val(env, t2, i.a[1]))
        if op == "extractelement":
            v = self.val(env, *i.a[0])
            k = self.val(env, *i.a[1])
            return v[k.x]
        if op == "insertelement":
            v = list(self.val(env, *i.a[0]))
            v[self.val(env, *i.a[2]).x] = self.val(env, *i.a[1])
            return tuple(v)
        if op == "shufflevector":
            a, b = self.val(env, *i.a[0]), self.val(env, *i.a[1])
            ix = i.a[2][1]
            allv = tuple(a) + tuple(b)
            if ix[0] == "zero":
                return tuple(allv[0] for _ in range(i.a[2][0].n))
            return tuple(allv[x[1][1]] for x in ix[1])
        raise Unsupported("instruction " + i.raw)

    def ins(self, agg, ix, v):
        l = list(agg)
        l[ix[0]] = v if len(ix) == 1 else self.ins(l[ix[0]], ix[1:], v)
        return tuple(l)

    def intbin(self, op, a, b, g, i):
        if a.w == 0:
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if op == "xor" or op == "add" or op == "sub":
                return bxor(a, b)
            raise Unsupported("i1 " + op)
        w = a.w
        fl = i.x or []
        if op == "add":
            r = add(a, b)
            if "nuw" in fl:
                self.oblige("ub", "nuw add", g, uge(r, a))
            if "nsw" in fl:
                s = add(sext(a, w + 1), sext(b, w + 1))
                self.oblige("ub", "nsw add", g, eq(s, sext(r, w + 1)))
            return r
        if op == "sub":
            if "nuw" in fl:
                self.oblige("ub", "nuw sub", g, ule(b, a))
            if "nsw" in fl:
                s = sub(sext(a, w + 1), sext(b, w + 1))
                self.oblige("ub", "nsw sub", g, eq(s, sext(sub(a, b), w + 1)))
            return sub(a, b)
        if op == "mul":
            return self.mul(a, b, g, fl)
        if op in ("shl", "lshr", "ashr"):
            if not isc(b) or b.x >= w:
                self.oblige("ub", f"{op} amount in range", g, ult(b, const(w, w)))
            r = {"shl": shl, "lshr": lshr, "ashr": ashr}[op](a, b)
            return r
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.oblige("ub", f"{op} by zero", g, ne(b, const(0, w)))
            if op[0] == "s":
                self.oblige("ub", f"{op} overflow", g, bnot(band(eq(a, const(1 << (w - 1), w)), eq(b, const(-1, w)))))
            return self.div(op, a, b, g)
        if op == "and":
            return and_(a, b)
        if op == "or":
            return or_(a, b)
        if op == "xor":
            return xor(a, b)
        raise Unsupported(op)

    # overridable by proof modes
    def mul(self, a, b, g, fl=()):
        if "nuw" in fl or "nsw" in fl:
            w = a.w
            ext = zext if "nuw" in fl else sext
            wide = mul(ext(a, 2 * w), ext(b, 2 * w))
            self.oblige("ub", "no-wrap mul", g, eq(wide, ext(trunc(wide, w), 2 * w)))
        return mul(a, b)

    def mulwide(self, a, b, sg):
        """double-width product used for overflow tests"""
        w = a.w
        ext = sext if sg else zext
        return mul(ext(a, 2 * w), ext(b, 2 * w))

    def div(self, op, a, b, g):
        return {"udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem}[op](a, b)

    def icmp(self, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # same object: compare offsets
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1]:
                a, b = a.alts[0][2], b.alts[0][2]
            else:
                a, b = self.p2i(a), self.p2i(b)
        if a.w == 0:
            if pred == "eq":
                return biff(a, b)
            if pred == "ne":
                return bxor(a, b)
            a, b = b2bv(a), b2bv(b)
        return {"eq": eq, "ne": ne, "ult": ult, "ule": ule, "ugt": ugt, "uge": uge, "slt": slt, "sle": sle, "sgt": sgt, "sge": sge}[pred](a, b)

    def cast(self, op, t0, ty, a, g):
        if isinstance(a, tuple) and op != "bitcast":
            return tuple(self.cast(op, t0.e, ty.e, x, g) for x in a)
        if op == "trunc":
            if ty.n == 1:
                return bv2b(extract(0, 0, a))
            return trunc(a, ty.n)
        if op == "zext":
            return b2bv(a, ty.n) if a.w == 0 else zext(a, ty.n)
        if op == "sext":
            return ite(a, const(-1, ty.n), const(0, ty.n)) if a.w == 0 else sext(a, ty.n)
        if op in ("ptrtoint", "ptrtoaddr"):
            return resize(self.p2i(a), ty.n)
        if op == "inttoptr":
            return self.i2p(zext(a, 64))
        if op == "bitcast":
            if isinstance(a, tuple):
                if ty.k == "vec":
                    bits = self.vbits(a)
                    n = ty.e.n
                    return tuple(bv2b(extract(k, k, bits)) if n == 1 else extract(n * k + n - 1, n * k, bits) for k in range(ty.n))
                return self.vbits(a)
            if ty.k == "vec":
                n = ty.e.n
                return tuple(bv2b(extract(k, k, a)) if n == 1 else extract(n * k + n - 1, n * k, a) for k in range(ty.n))
            return a
        if op in ("fpext", "fptrunc"):
            return self.fconv(fp.BYW[t0.n], fp.BYW[ty.n], a)
        if op in ("sitofp", "uitofp"):
            if a.w == 0:
                a = b2bv(a, 8)
                op = "uitofp"
            return self.i2f(fp.BYW[ty.n], a, op[0] == "s")
        if op in ("fptosi", "fptoui"):
            f = fp.BYW[t0.n]
            r = self.f2i(f, a, ty.n, op == "fptosi")
            return r
        raise Unsupported("cast " + op)

    def vbits(self, a):
        r = None
        for x in a:
            if x.w == 0:
                x = b2bv(x)
            r = x if r is None else concat(x, r)
        return r

    # ---------------------------------------------------------- floats
    def nanv(self, f):
        self.nan_ops += 1
        v = fresh("nan", f.mb - 1)
        s = fresh("nansign", 1)
        return concat(s, concat(const((f.expmask << 1) | 1, f.eb + 1), v))

    def _ufnan(self, name, f, *args):
        """uninterpreted float result"""
        self.uf_used.add(name)
        return uf(name, f.w, *args)

    def fbin(self, op, f, a, b):
        if isc(a) and isc(b):
            r = {"fadd": fp.ref_add, "fsub": lambda f, x, y: fp.ref_add(f, x, y ^ f.signbit), "fmul": fp.ref_mul, "fdiv": fp.ref_div}.get(op)
            if r:
                return const(r(f, a.x, b.x), f.w)
        h = self.hooks.get(op)
        if h:
            return h(self, f, a, b)
        if self.fmode == "uf":
            return self._ufnan(f"{op}.{f.name}", f, a, b)
        if op == "fadd":
            return fp.fadd(f, a, b, nanv=self.nanv(f))
        if op == "fsub":
            return fp.fsub(f, a, b, nanv=self.nanv(f))
        if op == "fmul":
            return fp.fmul(f, a, b, nanv=self.nanv(f))
        raise Unsupported("native " + op)

    def fcmp(self, pred, f, a, b):
        if pred in ("true", "false"):
            return boolc(pred == "true")
        un = fp.funo(f, a, b)
        if pred == "ord":
            return bnot(un)
        if pred == "uno":
            return un
        k = pred[1:]
        r = {"eq": lambda: fp.feq(f, a, b), "lt": lambda: fp.flt(f, a, b), "gt": lambda: fp.flt(f, b, a),
             "le": lambda: fp.fle(f, a, b), "ge": lambda: fp.fle(f, b, a),
             "ne": lambda: bnot(fp.feq(f, a, b))}[k]()
        if pred[0] == "o":
            return band(r, bnot(un))
        return bor(r, un)

    def fconv(self, f, g, a):
        if isc(a):
            return const(fp.ref_conv(f, g, a.x), g.w)
        if "fconv" in self.hooks:
            return self.hooks["fconv"](self, f, g, a)
        if self.fmode == "uf":
            return self._ufnan(f"conv.{f.name}.{g.name}", g, a)
        return fp.convert(f, g, a, nanv=self.nanv(g))

    def i2f(self, f, a, sg):
        if isc(a):
            return const(fp.ref_from_int(f, sgn(a.x, a.w) if sg else a.x), f.w)
        if self.fmode == "uf":
            return self._ufnan(f"i2f.{sg}.{f.name}", f, a)
        return fp.from_int(f, a, sg)

    def f2i(self, f, a, w, sg):
        if isc(a):
            return const(fp.ref_to_int(f, a.x, w, sg), w)
        return fp.to_int_sat(f, a, w, sg)

    # ---------------------------------------------------------- calls
    def handler(self, name, pretty):
        key = name
        if key in self._ccache:
            return self._ccache[key]
        h = None
        for pat, fn in self.contracts.items():
            if re.fullmatch(pat, pretty):
                h = fn
                break
        self._ccache[key] = h
        return h

    def call(self, f, i, g, env, mem):
        callee, asm = i.x
        if asm:
            from . import asm as machine
            h = self.hooks.get("asm", machine.execute)
            return h(self, i, asm, [self.val(env, t, v) for t, v in i.a], g, mem)
        if callee[0] == "g":
            name = callee[1]
            if name.startswith("@llvm."):
                return self.intrinsic(name, i, g, env, mem)
            args = [self.val(env, t, v) for t, v in i.a]
            return self.call_named(name, args, i, g, mem)
        # indirect
        p = self.val(env, PTR, callee)
        args = [self.val(env, t, v) for t, v in i.a]
        h = self.hooks.get("indirect")
        if h:
            return h(self, p, args, i, g, mem)
        outs = []
        for c, o, off in p.alts:
            if o is None or o.kind != "fn":
                self.oblige("memory", "indirect call through invalid pointer", band(g, c), FALSE)
                continue
            r = self.call_named(o.name, args, i, band(g, c), mem)
            if r:
                v, m, gg = r
                outs.append((gg, {"r": v}, m))
        if not outs:
            return None
        gg, e, m = self.merge_states(outs)
        return e["r"], m, gg

    def call_named(self, name, args, i, g, mem):
        pretty = self.mod.pretty.get(name, name)
        h = self.handler(name, pretty)
        if h:
            r = h(self, name, args, i, g, mem)
            if r is not NotImplemented:
                self.contract_used[pretty] = self.contract_used.get(pretty, 0) + 1
                return r
        if name in self.mod.defs:
            return self.call_fn(name, args, mem, g)
        if self.noreturn(name):
            self.oblige("panic", pretty, g, FALSE)
            return None
        raise Unsupported("external function " + pretty)

    def intrinsic(self, name, i, g, env, mem):
        n = name[6:]
        A = lambda k: self.val(env, i.a[k][0], i.a[k][1])
        ok = lambda v: (v, mem, g)
        if n.startswith(("lifetime.", "dbg.", "experimental.noalias", "donothing", "prefetch")):
            return ok(None)
        if n.startswith("assume"):
            c = A(0)
            self.oblige("ub", "llvm.assume", g, c)
            return ok(None)
        if n.startswith("expect"):
            return ok(A(0))
        m = re.match(r"([su])(add|sub|mul)\.with\.overflow", n)
        if m:
            a, b = A(0), A(1)
            w = a.w
            sg = m.group(1) == "s"
            k = m.group(2)
            if k == "mul":
                r = self.mul(a, b, g)
                ov = self.mul_overflow(a, b, sg)
                return ok((r, ov))
            ext = sext if sg else zext
            if k == "add":
                r = add(a, b)
                if not sg:
                    ra, rb = urange(a), urange(b)
                    ov = FALSE if ra[1] + rb[1] <= mask(w) else ult(r, a)
                else:
                    ov = self._sov(a, b, r, True)
            else:
                r = sub(a, b)
                if not sg:
                    ov = ult(a, b)
                else:
                    ov = self._sov(a, b, r, False)
            return ok((r, ov))
        m = re.match(r"([su])(add|sub)\.sat", n)
        if m:
            a, b = A(0), A(1)
            w = a.w
            if m.group(1) == "u":
                if m.group(2) == "add":
                    r = add(a, b)
                    return ok(ite(ult(r, a), const(-1, w), r))
                return ok(ite(ult(a, b), const(0, w), sub(a, b)))
            wide = add(sext(a, w + 1), sext(b, w + 1)) if m.group(2) == "add" else sub(sext(a, w + 1), sext(b, w + 1))
            lo, hi = const(-(1 << (w - 1)), w + 1), const((1 << (w - 1)) - 1, w + 1)
            return ok(trunc(ite(slt(wide, lo), lo, ite(slt(hi, wide), hi, wide)), w))
        if n.startswith("ctlz") or n.startswith("cttz"):
            a = A(0)
            if isc(A(1)) and A(1).x:
                self.oblige("ub", n + " of zero", g, ne(a, const(0, a.w)))
            return ok(clz(a) if n.startswith("ctlz") else ctz(a))
        if n.startswith("ctpop"):
            return ok(popcnt(A(0)))
        if n.startswith("bswap"):
            return ok(bswap(A(0)))
        if n.startswith(("fshl", "fshr")):
            a, b, c = A(0), A(1), A(2)
            w = a.w
            k = urem(c, const(w, w))
            ab = concat(a, b)
            kk = zext(k, 2 * w)
            if n.startswith("fshl"):
                return ok(extract(2 * w - 1, w, shl(ab, kk)))
            return ok(trunc(lshr(ab, kk), w))
        if n.startswith("umin"):
            a, b = A(0), A(1)
            return ok(ite(ult(a, b), a, b))
        if n.startswith("umax"):
            a, b = A(0), A(1)
            return ok(ite(ult(a, b), b, a))
        if n.startswith("smin"):
            a, b = A(0), A(1)
            return ok(ite(slt(a, b), a, b))
        if n.startswith("smax"):
            a, b = A(0), A(1)
            return ok(ite(slt(a, b), b, a))
        if n.startswith("abs."):
            a = A(0)
            return ok(ite(slt(a, const(0, a.w)), neg(a), a))
        if n.startswith(("ucmp", "scmp")):
            a, b = A(0), A(1)
            lt = ult if n[0] == "u" else slt
            w = i.ty.n
            return ok(ite(lt(a, b), const(-1, w), ite(eq(a, b), const(0, w), const(1, w))))
        m = re.match(r"fpto([su])i\.sat", n)
        if m:
            a = A(0)
            return ok(self.f2i(fp.BYW[a.w], a, i.ty.n, m.group(1) == "s"))
        if n.startswith("fabs"):
            a = A(0)
            return ok(fp.fabs(fp.BYW[a.w], a))
        if n.startswith("copysign"):
            a, b = A(0), A(1)
            f = fp.BYW[a.w]
            return ok(concat(extract(f.w - 1, f.w - 1, b), fp.absb(f, a)))
        if n.startswith(("fma.", "fmuladd.")):
            a, b, c = A(0), A(1), A(2)
            f = fp.BYW[a.w]
            if self.fmode == "uf" or "fma" in self.hooks:
                h = self.hooks.get("fma")
                return ok(h(self, f, a, b, c) if h else self._ufnan(f"fma.{f.name}", f, a, b, c))
            return ok(fp.ffma(f, a, b, c, nanv=self.nanv(f)))
        m = re.match(r"(minimumnum|maximumnum|minnum|maxnum)\.", n)
        if m:
            a, b = A(0), A(1)
            f = fp.BYW[a.w]
            # LLVM: number if one NaN; -0 < +0
            lt = bor(fp.flt(f, a, b), band(fp.iszero(f, a), fp.iszero(f, b), fp.sign(f, a), bnot(fp.sign(f, b))))
            if m.group(1)[:3] == "max":
                r = ite(lt, b, a)
            else:
                r = ite(lt, a, b)
            r = ite(fp.isnan(f, a), ite(fp.isnan(f, b), self.nanv(f), b), ite(fp.isnan(f, b), a, r))
            return ok(r)
        m = re.match(r"(floor|ceil|trunc|rint|nearbyint|roundeven|round|sqrt)\.f", n)
        if m:
            a = A(0)
            f = fp.BYW[a.w]
            k = m.group(1)
            if k == "sqrt":
                h = self.hooks.get("sqrt")
                return ok(h(self, f, a) if h else self._ufnan(f"sqrt.{f.name}", f, a))
            rm = dict(floor=fp.RTN, ceil=fp.RTP, trunc=fp.RTZ, rint=fp.RNE, nearbyint=fp.RNE, roundeven=fp.RNE, round=fp.RNA)[k]
            return ok(fp.round_int(f, a, rm, nanv=self.nanv(f)))
        if n.startswith("is.constant"):
            return ok(FALSE)
        if n.startswith(("memcpy.", "memmove.")):
            return self.memcpy(i, g, mem, A(0), A(1), A(2))
        if n.startswith("memset."):
            return self.memset(g, mem, A(0), A(1), A(2))
        if n.startswith("vector.reduce.or"):
            v = A(0)
            if isinstance(v[0], T) and v[0].w == 0:
                return ok(bor(*v))
            r = v[0]
            for x in v[1:]:
                r = or_(r, x)
            return ok(r)
        if n.startswith("trap"):
            self.oblige("panic", "trap", g, FALSE)
            return None
        raise Unsupported("intrinsic " + n)

    def _sov(self, a, b, r, isadd):
        w = a.w
        H = 1 << (w - 1)
        ra, rb = srange(a), srange(b)
        if isadd:
            if ra[0] + rb[0] >= -H and ra[1] + rb[1] < H:
                return FALSE
        else:
            if ra[0] - rb[1] >= -H and ra[1] - rb[0] < H:
                return FALSE
        sa, sb, sr = [slt(x, const(0, w)) for x in (a, b, r)]
        if isadd:
            return band(biff(sa, sb), bxor(sa, sr))
        return band(bxor(sa, sb), bxor(sa, sr))

    def mul_overflow(self, a, b, sg):
        w = a.w
        if not sg:
            ra, rb = urange(a), urange(b)
            if ra[1] * rb[1] <= mask(w):
                return FALSE
            wide = self.mulwide(a, b, False)
            return ne(extract(2 * w - 1, w, wide), const(0, w))
        ra, rb = srange(a), srange(b)
        H = 1 << (w - 1)
        c = [x * y for x in ra for y in rb]
        if min(c) >= -H and max(c) < H:
            return FALSE
        wide = self.mulwide(a, b, True)
        return ne(wide, sext(trunc(wide, w), 2 * w))

    def memcpy(self, i, g, mem, dst, src, n):
        if not isc(n):
            h = self.hooks.get("memcpy")
            if h:
                return h(self, i, g, mem, dst, src, n)
            raise Unsupported("symbolic memcpy length")
        n = n.x
        if n == 0:
            return None, mem, g
        if len(src.alts) == 1 and len(dst.alts) == 1 and isc(src.alts[0][2]) and isc(dst.alts[0][2]) \
                and src.alts[0][1] is not None and dst.alts[0][1] is not None and "flat" not in (src.alts[0][1].kind, dst.alts[0][1].kind):
            so, sf = src.alts[0][1], src.alts[0][2].x
            do, df = dst.alts[0][1], dst.alts[0][2].x
            if sf + n > so.size or df + n > do.size or do.kind in ("const", "fn"):
                self.oblige("memory", "memcpy out of bounds", g, FALSE)
                return None, mem, g
            sc = self.cells(mem, so)
            dc = dict(self.cells(mem, do))
            k = 0
            new = []
            while k < n:
                c = sc.get(sf + k)
                if c is not None and c[0] <= n - k:
                    new.append((df + k, c[0], c[1]))
                    k += c[0]
                else:
                    b = self._byte(sc, sf + k)
                    if b is not None:
                        new.append((df + k, 1, b))
                    else:
                        new.append((df + k, 1, None))
                    k += 1
            for o, s, v in new:
                if v is None:
                    v = fresh("uninit", 8)
                self.wr(dc, o, s, v)
            mem = dict(mem)
            mem[do] = dc
            return None, mem, g
        # generic: word by word
        vals = []
        k = 0
        while k < n:
            s = 8 if n - k >= 8 else 1
            vals.append((k, s, self.load(g, mem, self.padd(src, C64(k)), ity(8 * s))))
            k += s
        for k, s, v in vals:
            mem = self.store(g, mem, self.padd(dst, C64(k)), ity(8 * s), v)
        return None, mem, g

    def memset(self, g, mem, dst, v, n):
        if not isc(n):
            raise Unsupported("symbolic memset length")
        for k in range(n.x):
            mem = self.store(g, mem, self.padd(dst, C64(k)), ity(8), v)
        return None, mem, g


INTBIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}


def _tz_(t):
    """known trailing zeros, for offsets"""
    if t.op == "const":
        return (t.x & -t.x).bit_length() - 1 if t.x else 64
    if t.op == "concat":
        k = _tz_(t.args[1])
        return k if k < t.args[1].w else t.args[1].w
    if t.op == "zext":
        return _tz_(t.args[0])
    if t.op in ("add", "sub"):
        return min(_tz_(t.args[0]), _tz_(t.args[1]))
    if t.op == "mul":
        return min(63, _tz_(t.args[0]) + _tz_(t.args[1]))
    if t.op == "ite":
        return min(_tz_(t.args[1]), _tz_(t.args[2]))
    return 0
