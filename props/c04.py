"""C04: signed integer division truncates toward zero, the remainder takes the dividend's sign."""
from irvc.frame import *
from .c03 import proved, NM, nonzero


def trunc_div(a, b, w):
    """quotient and remainder of two's complement bit patterns, or None for a zero divisor"""
    s = lambda x: x - (1 << w) if x >> (w - 1) else x
    a, b = s(a), s(b)
    if b == 0:
        return None
    q = abs(a) // abs(b)
    q = -q if (a < 0) != (b < 0) else q
    m = (1 << w) - 1
    return q & m, (a - q * b) & m


def goals(ck):
    con, cut = proved(ck)
    for w in (32, 64, 128):
        n, a = NM[w], [("a", f"u{w}"), ("b", f"u{w}")]
        kw = dict(requires=nonzero(w), contracts=con, loops=cut, engine="int" if cut else ("udiv", "urem"))

        def ora(k):
            def f(a, b, out, w=w):
                e = trunc_div(a, b, w)
                if e is None:
                    return None
                return True if out is None else tuple(out) == (e if k is None else (e[k],))
            return f

        def spec(a, b, w=w):
            # magnitudes as unsigned numbers; the most negative value has magnitude 2^(w-1)
            na, nb = (eq(extract(w - 1, w - 1, x), const(1, 1)) for x in (a, b))
            A, B = ite(na, neg(a), a), ite(nb, neg(b), b)
            q, r = udiv(A, B), urem(A, B)
            return ite(eq(extract(w - 1, w - 1, a), extract(w - 1, w - 1, b)), q, neg(q)), ite(na, neg(r), r)
        ck.contract("cb", f"__divmod{n}4", a + [("rem", ("out", w // 8))], lambda a, b, q, r: [("quotient", eq(q, spec(a, b)[0])), ("remainder", eq(r, spec(a, b)[1]))],
                    ora(None), **kw)
        ck.contract("cb", f"__div{n}3", a, lambda a, b, q: [("quotient", eq(q, spec(a, b)[0]))], ora(0), **kw)
        ck.contract("cb", f"__mod{n}3", a, lambda a, b, r: [("remainder", eq(r, spec(a, b)[1]))], ora(1), **kw)
