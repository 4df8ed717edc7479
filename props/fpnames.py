from irvc.fp import *

SUF = ((F16, "hf"), (F32, "sf"), (F64, "df"), (F128, "tf"))
FS = {f.name: s for f, s in SUF}
IS = ((32, "si"), (64, "di"), (128, "ti"))
# libm function name suffixes
LS = ((F16, "f16"), (F32, "f"), (F64, ""), (F128, "f128"))
