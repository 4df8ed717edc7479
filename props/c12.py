"""Float to integer conversion."""
from irvc.frame import *
from irvc.fp import *
from props.fpnames import *


def goals(k):
    for f, s in SUF[1:]:
        for w, i in IS:
            for sg in (True, False):
                k.contract("cb", f"__fix{'' if sg else 'uns'}{s}{i}", [("x", f)],
                           lambda x, r, f=f, sg=sg, w=w: [("truncated, saturated", eq(r, to_int_sat(f, x, w, sg)))],
                           lambda x, o, f=f, sg=sg, w=w: o is None or o == [ref_to_int(f, x, w, sg) % (1 << w)])
