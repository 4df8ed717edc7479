"""128-bit addition and subtraction."""
from irvc.frame import *


def goals(k):
    M = 1 << 128
    for op in ("add", "sub"):
        for sg in (True, False):
            t = "i128" if sg else "u128"
            ext = sext if sg else zext
            tr = (lambda v: sx(v, 128)) if sg else (lambda v: v)
            f = add if op == "add" else sub
            pf = (lambda a, b: a + b) if op == "add" else (lambda a, b: a - b)

            def fits(a, b, ext=ext, f=f):
                w = f(ext(a, 130), ext(b, 130))
                return eq(w, ext(trunc(w, 128), 130))
            inr = (lambda v: -(M >> 1) <= v < M >> 1) if sg else (lambda v: 0 <= v < M)
            k.contract("cb", f"__rust_{t}_{op}", [("a", t), ("b", t)],
                       lambda a, b, r, f=f: [("sum modulo 2^128", eq(r, f(a, b)))],
                       lambda a, b, o, pf=pf: o is None or o == [pf(a, b) % M])
            k.contract("cb", f"__rust_{t}_{op}o", [("a", t), ("b", t), ("oflow", ("out", 4))],
                       lambda a, b, r, o, f=f, fits=fits: [("sum modulo 2^128", eq(r, f(a, b))),
                                                           ("flag", eq(o, ite(fits(a, b), const(0, 32), const(1, 32))))],
                       lambda a, b, o, pf=pf, tr=tr, inr=inr: o is None or o == [pf(a, b) % M, 0 if inr(pf(tr(a), tr(b))) else 1])
