"""Integer to float conversion."""
from irvc.frame import *
from irvc.fp import *
from props.fpnames import *


def goals(k):
    for f, s in SUF[1:]:
        for w, i in IS:
            for sg in (True, False):
                t = f"{'i' if sg else 'u'}{w}"
                k.contract("cb", f"__float{'' if sg else 'un'}{i}{s}", [("i", t)],
                           lambda i, r, f=f, sg=sg: [("nearest, ties to even", eq(r, from_int(f, i, sg)))],
                           lambda i, o, f=f, sg=sg, w=w: o is None or o == [ref_from_int(f, sx(i, w) if sg else i)])
