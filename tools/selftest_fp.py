"""Validates the IEEE circuits of irvc.fp against exact rational arithmetic."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from irvc.term import *
from irvc import fp
from irvc.fp import *
random.seed(int(os.environ.get("VERIF_SEED", "1")))
N = int(sys.argv[1]) if len(sys.argv) > 1 else 300
def rf(f):
    k = random.random()
    if k < .1: return random.choice([0, f.inf, f.qnan, f.inf-1, 1, f.bias << f.mb, 1 << f.mb, (1 << f.mb)-1]) | random.choice([0, f.signbit])
    e = random.choice([random.getrandbits(f.eb), f.bias + random.randint(-f.p-3, f.p+3), random.randint(0, 3), f.expmask-random.randint(0,2)]) & f.expmask
    m = random.choice([random.getrandbits(f.mb), random.getrandbits(f.mb) & -(1 << random.randrange(f.mb)), 0, mask(f.mb), 1 << random.randrange(f.mb), mask(f.mb) ^ (1 << random.randrange(f.mb)), random.getrandbits(random.randint(1, f.mb))])
    return random.getrandbits(1) << (f.w-1) | e << f.mb | m
def near(f, a):
    d = random.choice([0, 1, 2, 3, f.p-1, f.p, f.p+1, f.p+2])
    e = max(0, min(f.expmask-1, (a >> f.mb & f.expmask) + random.choice([-d, d])))
    return (rf(f) & ~(f.expmask << f.mb)) | e << f.mb
small = [Fmt("t3", 3, 2), Fmt("t4", 4, 3)]
for f in small + [F16, F32, F64, F128]:
    a, b, c = var("a", f.w), var("b", f.w), var("c", f.w)
    circ = dict(add=fadd(f, a, b), muln=fmul(f, a, b, norm=True), addn=fadd(f, a, b, norm=True), mul=fmul(f, a, b), fma=ffma(f, a, b, c))
    for rm in (RNE, RTP, RTN, RTZ, RNA):
        circ["ri" + rm] = round_int(f, a, rm)
    for g in (F16, F32, F64, F128):
        circ["cv" + g.name] = convert(f, g, a)
    i = {w: var("i%d" % w, w) for w in (32, 64, 128)}
    for w in i:
        for sg in (0, 1):
            circ["fi%d%d" % (w, sg)] = from_int(f, i[w], sg)
            circ["ti%d%d" % (w, sg)] = to_int_sat(f, a, w, sg)
    ks = list(circ)
    n = N if f.w > 8 else max(N, 2000)
    for _ in range(n):
        va = rf(f); vb = random.choice([rf(f), near(f, va)]); vc = random.choice([rf(f), near(f, va)])
        if random.random() < .3:
            p = ref_mul(f, va, vb)
            vc = near(f, p)
            if random.random() < .5: vc = p ^ f.signbit
        vi = {w: random.choice([random.getrandbits(w), random.getrandbits(random.randint(1, w)), mask(random.randint(1, w)), (random.getrandbits(f.p+1) << random.randint(0, w)) & mask(w), (1 << random.randint(0, w-1)) | 1]) for w in i}
        r = dict(zip(ks, evaluate([circ[k] for k in ks], {a: va, b: vb, c: vc, **{i[w]: vi[w] for w in i}})))
        def chk(k, x, g=f):
            assert same(g, r[k], x), (f, k, hex(va), hex(vb), hex(vc), hex(r[k]), hex(x), {w: hex(vi[w]) for w in vi})
        chk("add", ref_add(f, va, vb)); chk("muln", ref_mul(f, va, vb)); chk("addn", ref_add(f, va, vb)); chk("mul", ref_mul(f, va, vb)); chk("fma", ref_fma(f, va, vb, vc))
        for rm in (RNE, RTP, RTN, RTZ, RNA): chk("ri" + rm, ref_round_int(f, va, rm))
        for g in (F16, F32, F64, F128): chk("cv" + g.name, ref_conv(f, g, va), g)
        for w in i:
            for sg in (0, 1):
                chk("fi%d%d" % (w, sg), ref_from_int(f, sgn(vi[w], w) if sg else vi[w]))
                x = ref_to_int(f, va, w, sg); assert r["ti%d%d" % (w, sg)] == x, (f, w, sg, hex(va), hex(r["ti%d%d" % (w, sg)]), hex(x))
    print(f, "ok", flush=True)
