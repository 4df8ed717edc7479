"""Parser for the subset of textual LLVM IR rustc emits.  Functions are parsed lazily."""
import re, struct

TOK = re.compile(r'''[+-](?:inf|qnan|[a-z]*nan\([^)]*\))|c"[^"]*"|[%@]"[^"]*"|[%@][-\w$.]+|"[^"]*"|![\w.]*|\#\d+|f?0x[HKLMRS]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[(){}<>\[\],=*|:;]''')


class Ty:
    __slots__ = ("k", "n", "e")

    def __init__(self, k, n=0, e=None):
        self.k, self.n, self.e = k, n, e

    def __repr__(self):
        return f"{self.k}{self.n or ''}{self.e or ''}"


PTR = Ty("ptr", 64)
VOID = Ty("void")
_ints = {}


def ity(n):
    if n not in _ints:
        _ints[n] = Ty("i", n)
    return _ints[n]


FL = {"half": Ty("f", 16), "float": Ty("f", 32), "double": Ty("f", 64), "fp128": Ty("f", 128), "bfloat": Ty("bf", 16), "x86_fp80": Ty("x87", 80)}


def sizeof(t):
    if t.k == "i":
        return (t.n + 7) // 8 if t.n != 128 else 16
    if t.k == "f":
        return t.n // 8
    if t.k == "ptr":
        return 8
    if t.k in ("arr",):
        return t.n * sizeof(t.e)
    if t.k == "vec":
        return t.n * sizeof(t.e)
    if t.k in ("st", "pst"):
        return layout(t)[1]
    raise Exception("sizeof " + repr(t))


def alignof(t):
    if t.k == "i":
        s = sizeof(t)
        return 1 << (s - 1).bit_length() if s > 1 else 1
    if t.k == "f":
        return t.n // 8
    if t.k == "ptr":
        return 8
    if t.k == "arr":
        return alignof(t.e)
    if t.k == "vec":
        return sizeof(t)
    if t.k == "pst":
        return 1
    return max([1] + [alignof(x) for x in t.e])


def layout(t):
    off = 0
    offs = []
    al = 1
    for x in t.e:
        a = 1 if t.k == "pst" else alignof(x)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += sizeof(x)
        al = max(al, a)
    off = (off + al - 1) // al * al
    return offs, off


class Ins:
    __slots__ = ("dst", "op", "ty", "a", "x", "raw")

    def __init__(self, dst, op, ty, a, x=None, raw=""):
        self.dst, self.op, self.ty, self.a, self.x, self.raw = dst, op, ty, a, x, raw


class Fn:
    pass


class P:
    def __init__(self, s, mod):
        self.t = TOK.findall(s)
        self.i = 0
        self.mod = mod
        self.s = s

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x:
            raise Exception(f"expected {x} got {y} in {self.s[:300]}")

    def type(self):
        x = self.next()
        if x == "ptr":
            if self.acc("addrspace"):
                self.exp("(")
                self.next()
                self.exp(")")
            return PTR
        if x == "void":
            return VOID
        if x[0] == "i" and x[1:].isdigit():
            return ity(int(x[1:]))
        if x in FL:
            return FL[x]
        if x == "[":
            n = int(self.next())
            self.exp("x")
            e = self.type()
            self.exp("]")
            return Ty("arr", n, e)
        if x == "<":
            if self.acc("{"):
                l = self._tlist("}")
                self.exp(">")
                return Ty("pst", 0, l)
            n = int(self.next())
            self.exp("x")
            e = self.type()
            self.exp(">")
            return Ty("vec", n, e)
        if x == "{":
            return Ty("st", 0, self._tlist("}"))
        if x == "metadata":
            return Ty("metadata")
        if x == "label":
            return Ty("label")
        if x[0] == "%":
            return self.mod.named_type(x)
        raise Exception("type " + x + " in " + self.s[:200])

    def _tlist(self, end):
        l = []
        if self.acc(end):
            return l
        while True:
            l.append(self.type())
            if self.acc(end):
                return l
            self.exp(",")

    VALW = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "asm", "none", "splat", "trunc", "sub", "add"}

    def attrs(self):
        """skip parameter attributes"""
        out = {}
        while True:
            x = self.peek()
            if x is None or not (x[0].isalpha()) or x in self.VALW or x.startswith('c"'):
                return out
            if re.match(r"f?0x", x):
                return out
            self.next()
            if x == "align":
                out["align"] = int(self.next()) if self.peek() != "(" else self._paren()
            elif self.peek() == "(":
                out[x] = self._paren()
            else:
                out[x] = True

    def _paren(self):
        self.exp("(")
        d = 1
        l = []
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
            if d:
                l.append(x)
        return l

    def val(self, ty):
        x = self.next()
        c = x[0]
        if c == "%":
            return ("l", x)
        if c == "@":
            return ("g", x)
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef", ty)
        if x == "zeroinitializer":
            return ("zero", ty)
        if x == "splat":
            self.exp("(")
            t = self.type()
            v = self.val(t)
            self.exp(")")
            return ("agg", [(t, v)] * ty.n)
        if x.startswith('c"'):
            return ("bytes", unesc(x[2:-1]))
        if x == "asm":
            raise Exception("asm value")
        if x == "getelementptr":
            while self.peek() != "(":
                if self.next() == "inrange":
                    self._paren()
            self.exp("(")
            bt = self.type()
            self.exp(",")
            ops = []
            while True:
                t = self.type()
                ops.append((t, self.val(t)))
                if self.acc(")"):
                    break
                self.exp(",")
            return ("gep", bt, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc"):
            self.exp("(")
            t = self.type()
            v = self.val(t)
            self.exp("to")
            t2 = self.type()
            self.exp(")")
            return ("cast", x, t, v, t2)
        if x in ("{", "<", "["):
            if x == "<" and self.peek() == "{":
                self.next()
                l = self._vlist("}")
                self.exp(">")
                return ("agg", l)
            return ("agg", self._vlist({"{": "}", "<": ">", "[": "]"}[x]))
        if ty.k == "f":
            return ("c", fconst(x, ty.n))
        if ty.k == "metadata":
            return ("undef", ty)
        return ("c", int(x) & ((1 << ty.n) - 1))

    def _vlist(self, end):
        l = []
        if self.acc(end):
            return l
        while True:
            t = self.type()
            l.append((t, self.val(t)))
            if self.acc(end):
                return l
            self.exp(",")

    def tval(self):
        t = self.type()
        return t, self.val(t)


def fconst(x, n):
    if x.startswith("f0x"):
        return int(x[3:], 16)
    if x[0] in "+-" and x[1] in "iqsn":
        from . import fp
        F = fp.BYW[n]
        s = (x[0] == "-") << (n - 1)
        if x[1:] == "inf":
            return s | F.inf
        if x[1:] == "qnan":
            return s | F.qnan
        return s | F.inf | int(re.search(r"0x([0-9A-Fa-f]+)", x).group(1), 16) | (0 if x[1:].startswith("snan") else 1 << (F.mb - 1))
    if x.startswith("0xH") or x.startswith("0xR"):
        return int(x[3:], 16)
    if x.startswith("0xL"):
        h = x[3:].rjust(32, "0")
        return int(h[16:], 16) << 64 | int(h[:16], 16)
    if x.startswith("0x"):
        d = int(x[2:], 16)
        if n == 64:
            return d
    else:
        d = struct.unpack("<Q", struct.pack("<d", float(x)))[0]
        if n == 64:
            return d
    from . import fp
    r = fp.ref_conv(fp.F64, fp.BYW[n], d)
    if (d & ((1 << 63) - 1)) > fp.F64.inf and n == 32:
        # NaN: payload is shifted
        return (d >> 63) << 31 | 0x7f800000 | ((d >> 29) & 0x7fffff)
    return r


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(0x5C)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "ptrtoaddr", "inttoptr", "bitcast", "addrspacecast"}
BINS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "volatile", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "tail", "musttail", "notail"}


class Module:
    def __init__(self, path):
        self.path = path
        paths = [path] if isinstance(path, str) else path
        text = ""
        for k, p in enumerate(paths):
            t = open(p, encoding="utf-8").read()
            if k:       # attribute groups are numbered per file
                t = re.sub(r"(?<=[ #])#(\d+)", lambda m: f"#{int(m.group(1)) + 10000 * k}", t)
            text += t + "\n"
        self.lines = text.split("\n")
        self.defs = {}      # symbol -> (start line, end line)
        self.pretty = {}    # symbol -> demangled comment
        self.globs = {}
        self.decls = {}
        self.types = {}
        self._ty = {}
        self.fns = {}
        self.meta = {}
        L = self.lines
        i = 0
        n = len(L)
        com = None
        while i < n:
            l = L[i]
            if l.startswith("define "):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                name = "@" + m.group(1)
                j = i
                while L[j] != "}":
                    j += 1
                self.defs[name] = (i, j)
                if com:
                    self.pretty[name] = com
                com = None
                i = j
            elif l.startswith("; "):
                if not l.startswith("; Function Attrs"):
                    com = l[2:]
            elif l.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.decls["@" + m.group(1)] = l
                if com:
                    self.pretty["@" + m.group(1)] = com
                com = None
            elif l.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[-\w$.]+) = ', l)
                self.globs[m.group(1)] = l
            elif l.startswith("%") and " = type " in l:
                k, v = l.split(" = type ", 1)
                self.types[k] = v
            elif l.startswith("module asm"):
                self.meta["module asm"] = True
            i += 1
        self.bypretty = {}
        for k, v in self.pretty.items():
            self.bypretty.setdefault(v, []).append(k)

    def named_type(self, n):
        if n not in self._ty:
            self._ty[n] = P(self.types[n], self).type()
        return self._ty[n]

    def find(self, pat, many=False):
        """symbols of *defined* functions whose demangled name matches the regex fully"""
        if "@" + pat in self.defs:
            return "@" + pat
        r = re.compile(pat)
        l = [k for k in self.defs if k in self.pretty and r.fullmatch(self.pretty[k])]
        if many:
            return l
        if len(l) != 1:
            raise LookupError(f"{len(l)} functions match {pat}: {[self.pretty[x] for x in l][:5]}")
        return l[0]

    def glob(self, name):
        """-> (type, init value or None, const?)"""
        l = self.globs[name]
        p = P(l.split(" = ", 1)[1], self)
        const = False
        while True:
            x = p.peek()
            if x in ("constant", "global"):
                const = x == "constant"
                p.next()
                break
            p.next()
            if p.peek() == "(":
                p._paren()
        ty = p.type()
        try:
            v = p.val(ty)
        except IndexError:
            v = None
        return ty, v, const

    def fn(self, name):
        if name not in self.fns:
            self.fns[name] = self._fn(name)
        return self.fns[name]

    def _fn(self, name):
        a, b = self.defs[name]
        f = Fn()
        f.name = name
        f.pretty = self.pretty.get(name, name)
        h = self.lines[a]
        i = h.index(name + "(")
        # return type: tokens just before the name
        pre = P(h[len("define "):i], self)
        WORDS = {"internal", "private", "external", "hidden", "weak", "linkonce_odr", "weak_odr", "dso_local", "unnamed_addr", "local_unnamed_addr", "protected", "default", "fastcc", "coldcc", "cold", "available_externally", "linkonce"}
        while pre.peek() in WORDS or (pre.peek() and pre.peek().startswith("cc")):
            pre.next()
        while True:
            save = pre.i
            try:
                f.ret = pre.type()
                if pre.peek() is None:
                    break
            except Exception:
                pass
            pre.i = save
            x = pre.next()
            if pre.peek() == "(":
                pre._paren()
        p = P(h[i + len(name):], self)
        p.exp("(")
        f.params = []
        f.pattrs = []
        while not p.acc(")"):
            if p.acc("..."):
                continue
            t = p.type()
            at = p.attrs()
            v = p.next() if p.peek() and p.peek()[0] == "%" else None
            f.params.append((t, v))
            f.pattrs.append(at)
            p.acc(",")
        f.blocks = {}
        f.order = []
        cur = None
        i = a + 1
        while i < b:
            l = self.lines[i]
            i += 1
            if not l or l.startswith(";"):
                continue
            if l[0] != " ":
                m = re.match(r'("[^"]*"|[-\w$.]+):', l)
                cur = "%" + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = "%0_entry"
                f.blocks[cur] = []
                f.order.append(cur)
            s = l.strip()
            if s.startswith(";"):
                continue
            if " switch " in l or s.startswith("switch "):
                while not self.lines[i].strip().startswith("]"):
                    s += " " + self.lines[i].strip()
                    i += 1
                s += " ]"
                i += 1
            elif "landingpad" in s or s.startswith("cleanup") or "invoke " in s:
                while self.lines[i].strip().startswith(("cleanup", "to label", "catch")):
                    s += " " + self.lines[i].strip()
                    i += 1
            f.blocks[cur].append(self._ins(s))
        f.entry = f.order[0]
        _analyse(f)
        return f

    def _ins(self, s):
        p = P(s, self)
        dst = None
        if p.peek()[0] == "%" and p.t[p.i + 1] == "=":
            dst = p.next()
            p.next()
        op = p.next()
        flags = []
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        while p.peek() in FLAGS:
            flags.append(p.next())
        mk = lambda ty, a, x=None: Ins(dst, op, ty, a, x if x is not None else flags, s)
        if op in BINS:
            t = p.type()
            a = p.val(t)
            p.exp(",")
            b = p.val(t)
            return mk(t, [a, b])
        if op == "fneg" or op == "freeze":
            t = p.type()
            return mk(t, [p.val(t)])
        if op in ("icmp", "fcmp"):
            while p.peek() in FLAGS:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.val(t)
            p.exp(",")
            b = p.val(t)
            return mk(t, [a, b], pred)
        if op in CASTS:
            t = p.type()
            v = p.val(t)
            p.exp("to")
            return mk(p.type(), [v], (t, flags))
        if op == "select":
            ct = p.type()
            c = p.val(ct)
            p.exp(",")
            t, a = p.tval()
            p.exp(",")
            _, b = p.tval()
            return mk(t, [c, a, b], ct)
        if op == "ret":
            if p.peek() == "void":
                return mk(VOID, [])
            t = p.type()
            return mk(t, [p.val(t)])
        if op == "br":
            if p.acc("label"):
                return mk(None, [], [p.next()])
            p.type()
            c = p.val(ity(1))
            p.exp(",")
            p.exp("label")
            a = p.next()
            p.exp(",")
            p.exp("label")
            return mk(None, [c], [a, p.next()])
        if op == "switch":
            t, v = p.tval()
            p.exp(",")
            p.exp("label")
            d = p.next()
            p.exp("[")
            cs = []
            while not p.acc("]"):
                t2, c = p.tval()
                p.exp(",")
                p.exp("label")
                cs.append((c[1], p.next()))
            return mk(t, [v], (d, cs))
        if op == "phi":
            t = p.type()
            inc = []
            while True:
                p.exp("[")
                v = p.val(t)
                p.exp(",")
                inc.append((v, p.next()))
                p.exp("]")
                if not p.acc(","):
                    break
                if p.peek() is None or p.peek().startswith("!"):
                    break
            return mk(t, [], inc)
        if op == "alloca":
            while p.peek() in ("inalloca",):
                p.next()
            t = p.type()
            al = alignof(t)
            while p.acc(","):
                if p.acc("align"):
                    al = int(p.next())
                elif p.peek() and not p.peek().startswith("!"):
                    raise Exception("alloca count")
                else:
                    break
            return mk(t, [], al)
        if op == "load":
            at = p.acc("atomic")
            while p.peek() in FLAGS:
                flags.append(p.next())
            t = p.type()
            p.exp(",")
            p.type()
            v = p.val(PTR)
            al = 1
            if "align" in p.t[p.i:]:
                al = int(p.t[p.i:][p.t[p.i:].index("align") + 1])
            return mk(t, [v], (al, at, flags))
        if op == "store":
            at = p.acc("atomic")
            while p.peek() in FLAGS:
                flags.append(p.next())
            t = p.type()
            v = p.val(t)
            p.exp(",")
            p.type()
            q = p.val(PTR)
            al = 1
            if "align" in p.t[p.i:]:
                al = int(p.t[p.i:][p.t[p.i:].index("align") + 1])
            return mk(t, [v, q], (al, at, flags))
        if op == "getelementptr":
            bt = p.type()
            p.exp(",")
            ops = []
            while True:
                t = p.type()
                ops.append((t, p.val(t)))
                if not p.acc(","):
                    break
                if p.peek().startswith("!"):
                    break
            return mk(PTR, [], (bt, ops, flags))
        if op in ("extractvalue",):
            t, v = p.tval()
            ix = []
            while p.acc(","):
                if p.peek().startswith("!"):
                    break
                ix.append(int(p.next()))
            return mk(t, [v], ix)
        if op == "insertvalue":
            t, v = p.tval()
            p.exp(",")
            t2, e = p.tval()
            ix = []
            while p.acc(","):
                if p.peek().startswith("!"):
                    break
                ix.append(int(p.next()))
            return mk(t, [v, e], (ix, t2))
        if op in ("call", "invoke"):
            p.attrs_cc = []
            # calling convention / return attributes
            while True:
                x = p.peek()
                if x in ("fastcc", "coldcc", "ccc") or (x.startswith("cc") and x[2:].isdigit()):
                    p.next()
                    continue
                if x[0].isalpha() and not _istype(x):
                    p.next()
                    if x == "align":
                        p.next()
                    elif p.peek() == "(":
                        p._paren()
                    continue
                break
            t = p.type()
            if p.peek() == "(":      # function type given
                p._paren()
            asm = None
            if p.peek() == "asm":
                p.next()
                fl = []
                while p.peek()[0] != '"':
                    fl.append(p.next())
                tmpl = p.next()
                p.exp(",")
                cons = p.next()
                asm = (tmpl[1:-1], cons[1:-1], fl)
                callee = None
            else:
                callee = p.val(PTR)
            p.exp("(")
            args = []
            while not p.acc(")"):
                at = p.type()
                if at.k == "metadata":
                    while p.peek() not in (",", ")"):
                        p.next()
                    args.append((at, ("undef", at)))
                else:
                    p.attrs()
                    args.append((at, p.val(at)))
                p.acc(",")
            return mk(t, args, (callee, asm))
        if op == "unreachable":
            return mk(None, [])
        if op in ("resume", "landingpad"):
            return mk(None, [], None)
        if op in ("insertelement", "extractelement", "shufflevector"):
            l = []
            while True:
                l.append(p.tval())
                if not p.acc(",") or p.peek().startswith("!"):
                    break
            return mk(l[0][0], l)
        if op == "fence":
            return mk(None, [])
        if op == "cmpxchg":
            while p.peek() in ("weak", "volatile"):
                p.next()
            p.type(); a = p.val(PTR); p.exp(",")
            t, c = p.tval(); p.exp(",")
            t, n = p.tval()
            return mk(t, [a, c, n])
        if op == "atomicrmw":
            while p.peek() in ("volatile",):
                p.next()
            k = p.next()
            p.type(); a = p.val(PTR); p.exp(",")
            t, v = p.tval()
            return mk(t, [a, v], k)
        raise Exception("instruction " + s)


def _istype(x):
    return x in FL or x in ("ptr", "void", "metadata") or (x[0] == "i" and x[1:].isdigit())


def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == "br":
        return t.x
    if t.op == "switch":
        return [t.x[0]] + [c[1] for c in t.x[1]]
    return []


def uses(v, out):
    if v[0] == "l":
        out.add(v[1])
    elif v[0] == "agg":
        for t, x in v[1]:
            uses(x, out)
    elif v[0] == "gep":
        for t, x in v[2]:
            uses(x, out)


def ins_uses(i):
    s = set()
    if i.op in ("call", "invoke", "insertelement", "extractelement", "shufflevector"):
        for t, v in i.a:
            uses(v, s)
        if i.op == "call" and i.x[0]:
            uses(i.x[0], s)
    elif i.op == "phi":
        pass
    elif i.op == "getelementptr":
        for t, v in i.x[1]:
            uses(v, s)
    else:
        for v in i.a:
            uses(v, s)
    return s


def _analyse(f):
    """successors, loop-contiguous order, loops, liveness"""
    f.succ = {b: list(dict.fromkeys(succs(f, b))) for b in f.order}
    # DFS
    post = []
    color = {}
    back = set()
    st = [(f.entry, iter(f.succ[f.entry]))]
    color[f.entry] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if s not in color:
                color[s] = 1
                st.append((s, iter(f.succ[s])))
                break
            elif color[s] == 1:
                back.add((b, s))
        else:
            color[b] = 2
            post.append(b)
            st.pop()
    rpo = post[::-1]
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in f.succ[b]:
            pred[s].append(b)
    f.pred = pred
    f.back = back
    # natural loops
    loops = {}
    for (t, h) in back:
        body = loops.setdefault(h, {h})
        st = [t]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(pred[x])
    f.loops = loops
    # order: topological order (ignoring back edges) such that loop bodies are contiguous
    rank = {b: i for i, b in enumerate(rpo)}
    f.rank = _order(f, rpo, loops, back)
    # liveness
    use, deff = {}, {}
    phiuse = {b: set() for b in rpo}
    for b in rpo:
        u, d = set(), set()
        for i in f.blocks[b]:
            if i.op == "phi":
                d.add(i.dst)
                for v, pb in i.x:
                    s = set()
                    uses(v, s)
                    if pb in phiuse:
                        phiuse[pb] |= s
            else:
                u |= ins_uses(i) - d
                if i.dst:
                    d.add(i.dst)
        use[b], deff[b] = u, d
    # a phi use counts as a use at the end of the predecessor
    live = {b: set(use[b]) for b in rpo}
    out = {b: set() for b in rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            o = set(phiuse[b])
            for s in f.succ[b]:
                o |= live[s] - {i.dst for i in f.blocks[s] if i.op == "phi"}
            n = use[b] | (o - deff[b])
            if n != live[b]:
                live[b] = n
                ch = True
            out[b] = o
    f.live = live


def _order(f, rpo, loops, back):
    """rank respecting forward edges with contiguous loops"""
    # innermost containing loop chains: treat each outermost loop as a super node, recurse
    def rec(nodes, head):
        """nodes: set of blocks; order them, head first"""
        # top-level loops inside nodes other than head's own loop
        inner = [h for h in loops if h in nodes and h != head and loops[h] <= nodes]
        # keep only maximal
        maxi = [h for h in inner if not any(h != g and h in loops[g] and loops[h] < loops[g] for g in inner)]
        rep = {}
        for h in maxi:
            for b in loops[h]:
                rep[b] = h
        adj = {}
        ind = {}
        top = [b for b in rpo if b in nodes and rep.get(b, b) == b]
        for b in top:
            adj[b] = set()
            ind[b] = 0
        for b in rpo:
            if b not in nodes:
                continue
            rb = rep.get(b, b)
            for s in f.succ[b]:
                if s not in nodes or s == head or (b, s) in back:
                    continue
                rs = rep.get(s, s)
                if rs != rb and rs not in adj[rb]:
                    adj[rb].add(rs)
                    ind[rs] += 1
        ready = [b for b in top if ind[b] == 0]
        pos = {b: i for i, b in enumerate(rpo)}
        import heapq
        hq = [(pos[b], b) for b in ready]
        heapq.heapify(hq)
        out = []
        while hq:
            _, b = heapq.heappop(hq)
            if b in maxi:
                out.extend(rec(loops[b], b))
            else:
                out.append(b)
            for s in adj[b]:
                ind[s] -= 1
                if ind[s] == 0:
                    heapq.heappush(hq, (pos[s], s))
        assert len(out) == len(nodes), "irreducible"
        return out
    o = rec(set(rpo), f.entry if f.entry in loops else None)
    return {b: i for i, b in enumerate(o)}
