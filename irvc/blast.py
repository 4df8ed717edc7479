"""Bit blaster: terms -> gate graph (AND / XOR / MUX with structural hashing) -> CNF."""
from .term import *

F, TR = 0, 1


class Blaster:
    def __init__(self):
        self.kind = [0]      # node 0 = constant false
        self.a = [0]
        self.b = [0]
        self.c = [0]
        self.h = {}
        self.memo = {}
        self.inputs = {}     # var term -> list of literals
        self.ufs = {}        # name -> list of (args bits, out bits, term)
        self.mulabs = None   # list of bit positions: abstract products
        self.muls = []
        self.muleq = None
        self.extra = []      # literals that must be true (side constraints)

    def newvar(self):
        self.kind.append(1)
        self.a.append(0)
        self.b.append(0)
        self.c.append(0)
        return 2 * (len(self.kind) - 1)

    def _node(self, k, a, b, c):
        key = (k, a, b, c)
        n = self.h.get(key)
        if n is None:
            n = len(self.kind)
            self.kind.append(k)
            self.a.append(a)
            self.b.append(b)
            self.c.append(c)
            self.h[key] = n
        return 2 * n

    def AND(self, a, b):
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1:
            return b
        if a == b:
            return a
        if a ^ 1 == b:
            return 0
        # one-level rewriting
        if not a & 1 and self.kind[a >> 1] == 2:
            x, y = self.a[a >> 1], self.b[a >> 1]
            if x == b or y == b:
                return a
            if x ^ 1 == b or y ^ 1 == b:
                return 0
        if not b & 1 and self.kind[b >> 1] == 2:
            x, y = self.a[b >> 1], self.b[b >> 1]
            if x == a or y == a:
                return b
            if x ^ 1 == a or y ^ 1 == a:
                return 0
        if a & 1 and self.kind[a >> 1] == 2:
            x, y = self.a[a >> 1], self.b[a >> 1]
            if x ^ 1 == b or y ^ 1 == b:
                return b
            if x == b:
                return self.AND(b, y ^ 1)
            if y == b:
                return self.AND(b, x ^ 1)
        if b & 1 and self.kind[b >> 1] == 2:
            x, y = self.a[b >> 1], self.b[b >> 1]
            if x ^ 1 == a or y ^ 1 == a:
                return a
            if x == a:
                return self.AND(a, y ^ 1)
            if y == a:
                return self.AND(a, x ^ 1)
        return self._node(2, a, b, 0)

    def OR(self, a, b):
        return self.AND(a ^ 1, b ^ 1) ^ 1

    def XOR(self, a, b):
        s = (a & 1) ^ (b & 1)
        a &= ~1
        b &= ~1
        if a > b:
            a, b = b, a
        if a == 0:
            return b ^ s
        if a == b:
            return s
        if self.kind[b >> 1] == 3:
            n = b >> 1
            if self.a[n] == a:
                return self.b[n] ^ s
            if self.b[n] == a:
                return self.a[n] ^ s
        if self.kind[a >> 1] == 3:
            n = a >> 1
            if self.a[n] == b:
                return self.b[n] ^ s
            if self.b[n] == b:
                return self.a[n] ^ s
        return self._node(3, a, b, 0) ^ s

    def MUX(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if c & 1:
            c ^= 1
            a, b = b, a
        if a < 2:
            return self.OR(c, b) if a else self.AND(c ^ 1, b)
        if b < 2:
            return self.OR(c ^ 1, a) if b else self.AND(c, a)
        if a ^ 1 == b:
            return self.XOR(c, b)
        if a == c:
            return self.OR(c, b)
        if a == c ^ 1:
            return self.AND(c ^ 1, b)
        if b == c:
            return self.AND(c, a)
        if b == c ^ 1:
            return self.OR(c ^ 1, a)
        # canonical sign: then-branch positive
        s = 0
        if a & 1:
            a ^= 1
            b ^= 1
            s = 1
        # mux of mux with same condition
        n = a >> 1
        if self.kind[n] == 4 and self.c[n] == c:
            return self.MUX(c, self.a[n], b) ^ s
        n = b >> 1
        if self.kind[n] == 4 and self.c[n] == c:
            return self.MUX(c, a, self.b[n] ^ (b & 1)) ^ s
        return self._node(4, a, b, c) ^ s

    def ANDL(self, xs):
        xs = list(xs)
        if not xs:
            return TR
        while len(xs) > 1:
            nx = []
            for i in range(0, len(xs) - 1, 2):
                nx.append(self.AND(xs[i], xs[i + 1]))
            if len(xs) & 1:
                nx.append(xs[-1])
            xs = nx
        return xs[0]

    def ORL(self, xs):
        return self.ANDL([x ^ 1 for x in xs]) ^ 1

    # ------------------------------------------------------ vectors (lsb first)
    def addv(self, a, b, cin=0):
        out = []
        c = cin
        for x, y in zip(a, b):
            p = self.XOR(x, y)
            out.append(self.XOR(p, c))
            c = self.OR(self.AND(x, y), self.AND(p, c))
        return out, c

    def subv(self, a, b):
        s, c = self.addv(a, [x ^ 1 for x in b], 1)
        return s, c ^ 1       # borrow

    def ultv(self, a, b):
        # a < b
        c = 0
        for x, y in zip(a, b):
            p = self.XOR(x, y)
            c = self.MUX(p, y, c)
        return c

    def eqv(self, a, b):
        return self.ANDL([self.XOR(x, y) ^ 1 for x, y in zip(a, b)])

    def muxv(self, c, a, b):
        return [self.MUX(c, x, y) for x, y in zip(a, b)]

    def mulv(self, a, b):
        """product modulo 2^w; the array is built on the operands without their constant zero
        ends, so that equal products of differently placed operands share their gates"""
        w = len(a)
        n = 0
        ops = []
        for v in (a, b):
            v = list(v)
            while v and v[-1] == 0:
                v.pop()
            k = 0
            while k < len(v) and v[k] == 0:
                k += 1
            n += k
            ops.append(v[k:])
        a, b = ops
        if not a or not b or n >= w:
            return [0] * w
        if self.mulabs is not None and all(sum(1 for x in v if x > 1) > 4 for v in (a, b)):
            P = self.absmul(a, b)
            P = [0] * n + P
            return P[:w] + [0] * (w - len(P))
        ca, cb = sum(1 for x in a if x < 2), sum(1 for x in b if x < 2)
        # b: multiplier, with more constant bits / fewer bits; ties broken by the literals themselves
        if (len(a) - ca, len(a), a) < (len(b) - cb, len(b), b):
            a, b = b, a
        m = min(w - n, len(a) + len(b))
        acc = [0] * m
        for i, y in enumerate(b):
            if y == 0 or i >= m:
                continue
            pp = [self.AND(x, y) for x in a[: m - i]]
            top = min(m, i + len(pp) + 1)
            s, c = self.addv(acc[i:i + len(pp)], pp)
            acc[i:i + len(pp)] = s
            if i + len(pp) < m:
                t, _ = self.addv(acc[i + len(pp):top], [c])
                acc[i + len(pp):top] = t
        return [0] * n + acc + [0] * (w - n - m)

    def absmul(self, a, b):
        """product as an uninterpreted value: equal operands (proved by self.muleq) give the same
        variables; facts listed in self.mulabs (bit positions) are asserted as side constraints"""
        if a > b:
            a, b = b, a
        for (x, y, P) in self.muls:
            if x == a and y == b:
                return P
        for (x, y, P) in self.muls:
            for u, v in ((x, y), (y, x)):
                e = self.AND(self.eqv(*self.pad(a, u)), self.eqv(*self.pad(b, v)))
                if e == 1 or (e > 1 and self.muleq and self.muleq(self, e)):
                    return P + [0] * (len(a) + len(b) - len(P))
        P = [self.newvar() for _ in range(len(a) + len(b))]
        for (x, y, Q) in self.muls:
            for u, v in ((x, y), (y, x)):
                e = self.AND(self.eqv(*self.pad(a, u)), self.eqv(*self.pad(b, v)))
                if e:
                    self.extra.append(self.OR(e ^ 1, self.eqv(*self.pad(P, Q))))
        self.muls.append((a, b, P))
        for i, j in self.mulabs:
            if i < len(a) and j < len(b):
                # operands of exactly i+1 and j+1 significant bits
                hi = self.ANDL([a[i], b[j]] + [x ^ 1 for x in a[i + 1:] + b[j + 1:]])
                self.extra.append(self.OR(hi ^ 1, self.AND(self.OR(P[i + j], P[i + j + 1]), self.ORL(P[i + j + 2:]) ^ 1)))
        za, zb, zp = self.ORL(a), self.ORL(b), self.ORL(P)
        self.extra.append(self.XOR(self.AND(za, zb), zp) ^ 1)
        # parity
        self.extra.append(self.XOR(self.AND(a[0], b[0]), P[0]) ^ 1)
        return P

    @staticmethod
    def pad(a, b):
        n = max(len(a), len(b))
        return list(a) + [0] * (n - len(a)), list(b) + [0] * (n - len(b))

    def divv(self, a, b):
        w = len(a)
        # restoring division
        r = [0] * w
        q = [0] * w
        for i in range(w - 1, -1, -1):
            r2 = [a[i]] + r           # w+1 bits
            d, bor_ = self.subv(r2, b + [0])
            q[i] = bor_ ^ 1
            r = self.muxv(q[i], d[:w], r2[:w])
        z = self.ORL(b)
        q = [self.MUX(z, x, TR) for x in q]
        r = [self.MUX(z, x, y) for x, y in zip(r, a)]
        return q, r

    def shiftv(self, a, s, kind):
        w = len(a)
        fill = a[-1] if kind == "ashr" else 0
        n = max(1, (w - 1).bit_length())
        cur = list(a)
        for k in range(min(n, len(s))):
            d = 1 << k
            if s[k] == 0:
                continue
            if kind == "shl":
                sh = [0] * min(d, w) + cur[: max(0, w - d)]
            else:
                sh = cur[d:] + [fill] * min(d, w)
            cur = [self.MUX(s[k], x, y) for x, y in zip(sh, cur)]
        hi = list(s[n:])
        if hi:
            big = self.ORL(hi)
            cur = [self.MUX(big, fill, x) for x in cur]
        return cur

    def clzv(self, a):
        w = len(a)
        n = w.bit_length()
        # recursive: returns (count bits, allzero)
        def rec(v):  # msb-first list
            if len(v) == 1:
                return [], v[0] ^ 1
            # split so that the high half is a power of two
            h = 1 << ((len(v) - 1).bit_length() - 1)
            hc, hz = rec(v[:h])
            lc, lz = rec(v[h:])
            k = h.bit_length() - 1
            hc = hc + [0] * (k - len(hc))
            lc = lc + [0] * (k - len(lc))
            return [self.MUX(hz, x, y) for x, y in zip(lc, hc)] + [hz], self.AND(hz, lz)
        c, z = rec(list(reversed(a)))
        c = c + [0] * (w - len(c))
        wc = [(w >> i) & 1 for i in range(w)]
        return [self.MUX(z, x, y) for x, y in zip(wc, c[:w])]

    # ------------------------------------------------------ terms
    def blast(self, root):
        memo = self.memo
        if root.id in memo:
            return memo[root.id]
        for t in postorder([root]):
            if t.id in memo:
                continue
            memo[t.id] = self._blast(t)
        return memo[root.id]

    def _blast(self, t):
        op = t.op
        w = t.w
        m = self.memo
        if op == "const":
            if w == 0:
                return t.x
            return [(t.x >> i) & 1 for i in range(w)]
        if op == "var":
            if w == 0:
                r = self.newvar()
                self.inputs[t] = [r]
                return r
            if w == -1:
                return t
            r = [self.newvar() for _ in range(w)]
            self.inputs[t] = r
            return r
        A = [m[x.id] for x in t.args]
        if op == "bnot":
            return A[0] ^ 1
        if op == "band":
            return self.ANDL(A)
        if op == "bor":
            return self.ORL(A)
        if op == "biff":
            return self.XOR(A[0], A[1]) ^ 1
        if op == "bite":
            return self.MUX(*A)
        if op == "ite":
            if w == -1:
                return t
            return self.muxv(*A)
        if op == "eq":
            return self.eqv(*A)
        if op == "ult":
            return self.ultv(*A)
        if op == "slt":
            a, b = A
            return self.ultv(a[:-1] + [a[-1] ^ 1], b[:-1] + [b[-1] ^ 1])
        if op == "add":
            return self.addv(*A)[0]
        if op == "sub":
            return self.subv(*A)[0]
        if op == "mul":
            return self.mulv(*A)
        if op in ("udiv", "urem"):
            key = ("div", t.args[0].id, t.args[1].id)
            if key not in m:
                m[key] = self.divv(*A)
            return m[key][0 if op == "udiv" else 1]
        if op == "and":
            return [self.AND(x, y) for x, y in zip(*A)]
        if op == "or":
            return [self.OR(x, y) for x, y in zip(*A)]
        if op == "xor":
            return [self.XOR(x, y) for x, y in zip(*A)]
        if op == "not":
            return [x ^ 1 for x in A[0]]
        if op in ("shl", "lshr", "ashr"):
            return self.shiftv(A[0], A[1], op)
        if op == "concat":
            return A[1] + A[0]
        if op == "extract":
            return A[0][t.x[1]: t.x[0] + 1]
        if op == "zext":
            return A[0] + [0] * (w - len(A[0]))
        if op == "sext":
            return A[0] + [A[0][-1]] * (w - len(A[0]))
        if op == "clz":
            return self.clzv(A[0])
        if op == "ctz":
            return self.clzv(list(reversed(A[0])))
        if op == "popcnt":
            acc = [0] * w
            for x in A[0]:
                acc, _ = self.addv(acc, [x] + [0] * (w - 1))
            return acc
        if op == "select":
            return self.rdmem(t.args[0], A[1])
        if op == "store":
            return t
        if op == "uf":
            out = self.newvar() if w == 0 else [self.newvar() for _ in range(w)]
            ob = [out] if w == 0 else out
            ab = []
            for x in A:
                ab.extend([x] if isinstance(x, int) else x)
            self._uf(t.x, ab, ob, t)
            return out
        raise Exception("blast " + op)

    def _uf(self, name, ab, ob, t):
        l = self.ufs.setdefault((name, len(ab), len(ob)), [])
        for (ab2, ob2, _) in l:
            e = self.eqv(ab, ab2)
            if e != 0:
                self.extra.append(self.OR(e ^ 1, self.eqv(ob, ob2)))
        l.append((ab, ob, t))

    def rdmem(self, mt, addr):
        key = ("rd", mt.id, tuple(addr))
        if key in self.memo:
            return self.memo[key]
        if mt.op == "store":
            base, ad, v = mt.args
            e = self.eqv(self.blast(ad), addr)
            r = self.blast(v) if e == 1 else self.rdmem(base, addr) if e == 0 else self.muxv(e, self.blast(v), self.rdmem(base, addr))
        elif mt.op == "ite":
            r = self.muxv(self.blast(mt.args[0]), self.rdmem(mt.args[1], addr), self.rdmem(mt.args[2], addr))
        elif mt.op == "var":
            r = [self.newvar() for _ in range(8)]
            self._uf("mem:" + mt.x, list(addr), r, mt)
        else:
            raise Exception("mem " + mt.op)
        self.memo[key] = r
        return r

    # ------------------------------------------------------ bit-parallel simulation
    def simulate(self, lits_, vals, n):
        """vals: node -> n-bit pattern word (inputs given, results cached); -> words of the literals"""
        kind, A, B, C = self.kind, self.a, self.b, self.c
        m = (1 << n) - 1
        vals.setdefault(0, 0)
        for l in lits_:
            st = [l >> 1]
            while st:
                x = st[-1]
                if x in vals:
                    st.pop()
                    continue
                k = kind[x]
                if k == 1:
                    vals[x] = 0
                    st.pop()
                    continue
                d = [y for y in (A[x] >> 1, B[x] >> 1, C[x] >> 1 if k == 4 else 0) if y not in vals]
                if d:
                    st.extend(d)
                    continue
                a = vals[A[x] >> 1] ^ (m if A[x] & 1 else 0)
                b = vals[B[x] >> 1] ^ (m if B[x] & 1 else 0)
                if k == 2:
                    vals[x] = a & b
                elif k == 3:
                    vals[x] = a ^ b
                else:
                    c = vals[C[x] >> 1] ^ (m if C[x] & 1 else 0)
                    vals[x] = (a & c) | (b & ~c & m)
                st.pop()
        return [vals[l >> 1] ^ (m if l & 1 else 0) for l in lits_]

    # ------------------------------------------------------ CNF
    def cnf(self, roots, path):
        """roots: list of literals to assert. Writes DIMACS; returns (nvars, nclauses, map)"""
        kind, A, B, C = self.kind, self.a, self.b, self.c
        idx = {}
        roots = [r for r in roots]
        if any(r == 0 for r in roots):
            return None
        st = [r >> 1 for r in roots if r != 1]
        order = []
        seen = set()
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            order.append(n)
            k = kind[n]
            if k == 2 or k == 3:
                st.append(A[n] >> 1)
                st.append(B[n] >> 1)
            elif k == 4:
                st.append(A[n] >> 1)
                st.append(B[n] >> 1)
                st.append(C[n] >> 1)
        for i, n in enumerate(sorted(seen)):
            idx[n] = i + 1
        out = []

        def L(l):
            return -idx[l >> 1] if l & 1 else idx[l >> 1]
        nc = 0
        for n in seen:
            k = kind[n]
            if k == 1:
                continue
            if k == 0:
                out.append(f"-{idx[n]} 0")
                nc += 1
                continue
            o = idx[n]
            a = L(A[n])
            b = L(B[n])
            if k == 2:
                out.append(f"-{o} {a} 0\n-{o} {b} 0\n{o} {-a} {-b} 0")
                nc += 3
            elif k == 3:
                out.append(f"-{o} {a} {b} 0\n-{o} {-a} {-b} 0\n{o} {-a} {b} 0\n{o} {a} {-b} 0")
                nc += 4
            else:
                c = L(C[n])
                out.append(f"-{o} {-c} {a} 0\n{o} {-c} {-a} 0\n-{o} {c} {b} 0\n{o} {c} {-b} 0\n-{o} {a} {b} 0\n{o} {-a} {-b} 0")
                nc += 6
        for r in roots:
            if r != 1:
                out.append(f"{L(r)} 0")
                nc += 1
        with open(path, "w") as f:
            f.write(f"p cnf {len(idx)} {nc}\n")
            f.write("\n".join(out))
            f.write("\n")
        return len(idx), nc, idx

    def model(self, vals, idx):
        """vals: set of true DIMACS vars -> {var term: int}"""
        r = {}
        for v, ls in self.inputs.items():
            x = 0
            for i, l in enumerate(ls):
                n = l >> 1
                if n in idx and idx[n] in vals:
                    x |= 1 << i
            r[v] = x
        return r

    def uf_model(self, vals, idx):
        """values of memory bytes read: list of (name, args value, out value)"""
        litv = self._litvals(vals, idx)
        r = []
        for (name, na, no), l in self.ufs.items():
            for ab, ob, t in l:
                r.append((name, sum(litv(x) << i for i, x in enumerate(ab)), sum(litv(x) << i for i, x in enumerate(ob))))
        return r

    def _litvals(self, vals, idx):
        memo = {0: 0}
        kind, A, B, C = self.kind, self.a, self.b, self.c

        def node(n0):
            st = [n0]
            while st:
                n = st[-1]
                if n in memo:
                    st.pop()
                    continue
                k = kind[n]
                if k == 1:
                    memo[n] = 1 if n in idx and idx[n] in vals else 0
                    st.pop()
                    continue
                deps = [A[n] >> 1, B[n] >> 1] + ([C[n] >> 1] if k == 4 else [])
                p = [d for d in deps if d not in memo]
                if p:
                    st.extend(p)
                    continue
                a = memo[A[n] >> 1] ^ (A[n] & 1)
                b = memo[B[n] >> 1] ^ (B[n] & 1)
                if k == 2:
                    memo[n] = a & b
                elif k == 3:
                    memo[n] = a ^ b
                else:
                    c = memo[C[n] >> 1] ^ (C[n] & 1)
                    memo[n] = a if c else b
                st.pop()
            return memo[n0]
        return lambda l: node(l >> 1) ^ (l & 1)
