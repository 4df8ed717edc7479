"""Case splits and simulation patterns for binary float operations."""
from irvc.frame import *


def nrm(f, x):
    return ne(fp.expf(f, x), const(0, f.eb))


def finite2(f, a, b):
    return band(fp.isfinite(f, a), fp.isfinite(f, b), bnot(fp.iszero(f, a)), bnot(fp.iszero(f, b)))


def classes2(f, a, b):
    """special operands / finite nonzero by (normal, subnormal) class"""
    fin = finite2(f, a, b)
    na, nb = nrm(f, a), nrm(f, b)
    return [("special operand", bnot(fin)), ("normal, normal", band(fin, na, nb)), ("normal, subnormal", band(fin, na, bnot(nb))),
            ("subnormal, normal", band(fin, bnot(na), nb)), ("subnormal, subnormal", band(fin, bnot(na), bnot(nb)))]


def addsplit(f, flip=False):
    def split(a, b):
        out = []
        lt = ult(fp.absb(f, a), fp.absb(f, b))
        es = bxor(fp.sign(f, a), fp.sign(f, b))
        if flip:
            es = bnot(es)
        for l, c in classes2(f, a, b):
            if l[0:2] == "sp":
                out.append((l, c))
                continue
            for l2, c2 in (("|a|<|b|", lt), ("|a|>=|b|", bnot(lt))):
                if (l2 == "|a|<|b|" and l == "normal, subnormal") or (l2 == "|a|>=|b|" and l == "subnormal, normal"):
                    continue        # impossible combinations; the exhaustiveness obligation covers this
                out.append((f"{l}, {l2}, effective addition", band(c, c2, bnot(es))))
                # near: exponents differ by at most one
                x, y = (b, a) if l2 == "|a|<|b|" else (a, b)
                near = ule(sub(zext(fp.expf(f, x), f.eb + 1), zext(fp.expf(f, y), f.eb + 1)), const(1, f.eb + 1))
                if l == "subnormal, subnormal":
                    out.append((f"{l}, {l2}, effective subtraction", band(c, c2, es)))
                    continue
                out.append((f"{l}, {l2}, effective subtraction, near", band(c, c2, es, near)))
                out.append((f"{l}, {l2}, effective subtraction, far", band(c, c2, es, bnot(near))))
        return out
    return split


def gen2(f):
    def gen(rng):
        x, y = corner(rng, f.w, f), corner(rng, f.w, f)
        if rng.getrandbits(1):
            e = (x >> f.mb & f.expmask) + rng.randrange(-f.mb - 4, f.mb + 5)
            y = y & ~f.inf | max(0, min(f.expmask - 1, e)) << f.mb
        return {"a": x, "b": y}
    return gen
