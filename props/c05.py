"""Shifts."""
from irvc.frame import *


def goals(k):
    for w, s in ((32, "si"), (64, "di"), (128, "ti")):
        for op, f, sg in (("ashl", shl, "u"), ("lshr", lshr, "u"), ("ashr", ashr, "i")):
            def orc(a, b, o, w=w, op=op):
                if b >= w:
                    return None
                if o is None:
                    return True
                v = {"ashl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: sx(a, w) >> b}[op]()
                return o == [v % (1 << w)]
            k.contract("cb", f"__{op}{s}3", [("a", f"{sg}{w}"), ("b", "u32")],
                       lambda a, b, r, f=f, w=w: [("exact shift", eq(r, f(a, resize(b, w))))],
                       orc, requires=lambda a, b, w=w: [ult(b, const(w, 32))],
                       samples=lambda rng, w=w: [corner(rng, w), rng.randrange(w)])
