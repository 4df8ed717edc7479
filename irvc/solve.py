"""Back ends.  sat(): bit blast + kissat.  Parallel driver over obligations."""
import os, subprocess, tempfile, time, multiprocessing as mp, shutil, signal
from .term import *
from .blast import Blaster

KISSAT = shutil.which("kissat") or "/usr/local/bin/kissat"


class Result:
    def __init__(self, st, model=None, secs=0.0, info="", backend="kissat"):
        self.st = st            # 'unsat' | 'sat' | 'unknown'
        self.model = model or {}
        self.secs = secs
        self.info = info
        self.backend = backend

    def __repr__(self):
        return f"<{self.st} {self.secs:.2f}s {self.info}>"


CADICAL = shutil.which("cadical")


def sat(asserts, timeout=600, want_mem=False, opts=(), tool="kissat"):
    """Satisfiability of the conjunction of the boolean terms."""
    t0 = time.time()
    bl = Blaster()
    lits_ = []
    f = band(*asserts)
    if any(t.op == "select" for t in postorder([f])):
        f = band(*expand([f]))
    if f is FALSE:
        return Result("unsat", secs=time.time() - t0, info="syntactic", backend="simplifier")
    if f is TRUE:
        return Result("sat", {}, time.time() - t0, "syntactic")
    for x in lits(f):
        lits_.append(bl.blast(x))
    tb = time.time() - t0
    roots = lits_ + bl.extra
    fd, path = tempfile.mkstemp(suffix=".cnf")
    os.close(fd)
    try:
        r = bl.cnf(roots, path)
        if r is None:
            return Result("unsat", secs=time.time() - t0, info="blaster", backend="simplifier")
        nv, nc, idx = r
        tm = max(1, int(timeout - (time.time() - t0)))
        if tool == "cadical" and CADICAL:
            cmd = [CADICAL, "-q", "-t", str(tm), path]
        else:
            tool, cmd = "kissat", [KISSAT, "-q", f"--time={tm}", *opts, path]
        p = subprocess.run(cmd, capture_output=True, text=True)
        secs = time.time() - t0
        info = f"blast {tb:.1f}s vars {nv} clauses {nc}"
        if p.returncode == 20:
            return Result("unsat", secs=secs, info=info, backend=tool)
        if p.returncode == 10:
            vals = set()
            for ln in p.stdout.splitlines():
                if ln.startswith("v "):
                    for tok in ln[2:].split():
                        if tok[0] != "-":
                            vals.add(int(tok))
            m = bl.model(vals, idx)
            res = Result("sat", m, secs, info)
            res.ufm = bl.uf_model(vals, idx) if bl.ufs else []
            return res
        return Result("unknown", secs=secs, info=info + f" rc={p.returncode} {p.stderr[:200]}")
    finally:
        os.unlink(path)


SWEEP = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bin", "sweep")


def build_sweep():
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "sweep.cpp")
    if os.path.exists(SWEEP) and os.path.getmtime(SWEEP) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(SWEEP), exist_ok=True)
    tmp = SWEEP + f".{os.getpid()}"
    subprocess.run(["g++", "-O2", "-std=c++17", "-o", tmp, src], check=True)
    os.rename(tmp, SWEEP)


def transpose(rows, n):
    """list of words (one per bit position) of n patterns -> n values"""
    out = [0] * n
    for i, r in enumerate(rows):
        while r:
            low = r & -r
            out[low.bit_length() - 1] |= 1 << i
            r ^= low
    return out


def _sweep_call(bl, cl, gl, pats, npat, limit, final, timeout, path=None):
    cl = [x for x in cl if x != 1]
    gl = [x for x in gl if x != 1]
    pw = (npat + 63) // 64 if pats else 0
    out = [str(len(bl.kind))]
    out += [f"{k} {a} {b} {c}" for k, a, b, c in zip(bl.kind[1:], bl.a[1:], bl.b[1:], bl.c[1:])]
    out.append(f"{len(cl)} " + " ".join(map(str, cl)))
    out.append(f"{len(gl)} " + " ".join(map(str, gl)))
    out.append(str(npat if pats else 0))
    out.append(str(len(pats)))
    for n, x in pats.items():
        out.append(f"{n} " + " ".join(f"{x >> (64 * w) & (2**64 - 1):x}" for w in range(pw)))
    out.append(f"{limit} {final} {timeout}")
    return subprocess.run([SWEEP] + ([path] if path else []), input="\n".join(out) + "\n", capture_output=True, text=True)


def swept(constraints, goals, gen=None, npat=2048, limit=2000, final=20000, timeout=600, seed=1, opts=(), sweep_s=None, mulabs=None):
    """Satisfiability of constraints & goals.  Internal equivalences (under the constraints) are
    found by simulation, proved one at a time and merged; the remainder goes to kissat.
    gen(rng) -> {variable: value} proposes simulation patterns (filtered by the constraints);
    mulabs: abstract products (list of (i, j) positions of operand top bits with a bound fact)."""
    import random
    t0 = time.time()
    f = band(*constraints, *goals)
    if f is FALSE:
        return Result("unsat", secs=time.time() - t0, info="syntactic", backend="simplifier")
    bl = Blaster()
    bl.mulabs = mulabs
    rng = random.Random(seed)
    envs = [gen(rng) for _ in range(npat)] if gen else None
    sim = {}

    def fill():
        """patterns of the inputs created so far"""
        for v, ls in bl.inputs.items():
            if ls[0] >> 1 in sim:
                continue
            vals = [e.get(v, e.get(v.x)) for e in envs]
            if vals[0] is None:
                vals = [rng.getrandbits(max(1, v.w)) for _ in envs]
            for b, l in enumerate(ls):
                x = 0
                for k, y in enumerate(vals):
                    x |= (y >> b & 1) << k
                sim[l >> 1] = x
        for a, b, P in bl.muls:
            if P[0] >> 1 in sim:
                continue
            av = transpose(bl.simulate(a, sim, npat), npat)
            bv = transpose(bl.simulate(b, sim, npat), npat)
            pv = [x * y for x, y in zip(av, bv)]
            for i, l in enumerate(P):
                x = 0
                for k, y in enumerate(pv):
                    x |= (y >> i & 1) << k
                sim[l >> 1] = x

    def patterns():
        if not envs:
            return {}
        fill()
        r = {l >> 1: sim[l >> 1] for ls in bl.inputs.values() for l in ls}
        r.update({l >> 1: sim[l >> 1] for _, _, P in bl.muls for l in P})
        return r
    cl = []
    nm = [0]

    def muleq(b, e):
        p = _sweep_call(bl, cl + bl.extra, [e ^ 1], patterns(), npat, limit, 20000, 60)
        nm[0] += 1
        return p.returncode == 0 and p.stdout.startswith("unsat")
    for x in lits(band(*constraints)):
        cl.append(bl.blast(x))
    bl.muleq = muleq
    gl = [bl.blast(x) for x in lits(band(*goals))]
    cl += bl.extra
    if 0 in cl or 0 in gl:
        return Result("unsat", secs=time.time() - t0, info="blaster", backend="simplifier")
    fd, path = tempfile.mkstemp(suffix=".cnf")
    os.close(fd)
    pt = patterns()
    tb = time.time() - t0
    try:
        p = _sweep_call(bl, cl, gl, pt, npat, limit, final, sweep_s or max(1, timeout - tb), path)
        info = f"gates {len(bl.kind)} blast {tb:.1f}s " + (f"products {len(bl.muls)} operand proofs {nm[0]} " if mulabs is not None else "") + f"sweep: {p.stderr.strip()}"
        ans = p.stdout.split("\n")
        if p.returncode:
            return Result("unknown", secs=time.time() - t0, info=info + f" rc={p.returncode}")
        if ans[0] == "unsat":
            return Result("unsat", secs=time.time() - t0, info=info, backend="sweep")
        if ans[0] == "sat":
            on = {int(x) for x in ans[1].split()}
            m = {v: sum(1 << i for i, l in enumerate(ls) if l >> 1 in on) for v, ls in bl.inputs.items()}
            return Result("sat", m, time.time() - t0, info, "sweep")
        tm = int(timeout - (time.time() - t0))
        if tm < 1:
            return Result("unknown", secs=time.time() - t0, info=info)
        idx = {}
        with open(path) as fh:
            for ln in fh:
                if not ln.startswith("c input"):
                    break
                _, _, n, d = ln.split()
                idx[int(n)] = int(d)
        p = subprocess.run([KISSAT, "-q", f"--time={tm}", *opts, path], capture_output=True, text=True)
        secs = time.time() - t0
        info += f" kissat {secs - tb:.1f}s"
        if p.returncode == 20:
            return Result("unsat", secs=secs, info=info, backend="sweep+kissat")
        if p.returncode == 10:
            vals = set()
            for ln in p.stdout.splitlines():
                if ln.startswith("v "):
                    vals.update(int(x) for x in ln[2:].split() if x[0] != "-")
            m = {v: sum(1 << i for i, l in enumerate(ls) if idx.get(l >> 1) in vals) for v, ls in bl.inputs.items()}
            return Result("sat", m, secs, info, "sweep+kissat")
        return Result("unknown", secs=secs, info=info)
    finally:
        os.unlink(path)


def run_parallel(jobs, fn, nproc=8, timeout=None, stop_on=None):
    """jobs: list; fn(job)->picklable.  Forks one process per job (so closures and
    terms are inherited).  Yields (index, result).  stop_on(result)->True aborts."""
    import select as _sel
    res = {}
    pend = list(range(len(jobs)))
    pend.reverse()
    running = {}
    t0 = time.time()
    stop = False
    import pickle
    while pend or running:
        while pend and len(running) < nproc and not stop:
            i = pend.pop()
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(rfd)
                try:
                    r = fn(jobs[i])
                except BaseException as e:
                    import traceback
                    r = ("__exc__", traceback.format_exc())
                try:
                    with os.fdopen(wfd, "wb") as f:
                        pickle.dump(r, f)
                finally:
                    os._exit(0)
            os.close(wfd)
            running[rfd] = (i, pid, [])
        if stop:
            pend = []
        if not running:
            break
        rd, _, _ = _sel.select(list(running), [], [], 5)
        if timeout and time.time() - t0 > timeout:
            stop = True
        for fd in rd:
            i, pid, buf = running[fd]
            d = os.read(fd, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(fd)
            del running[fd]
            os.waitpid(pid, 0)
            try:
                r = pickle.loads(b"".join(buf))
            except Exception:
                r = ("__exc__", "worker died")
            yield i, r
            if stop_on and stop_on(r):
                stop = True
        if stop:
            for fd, (i, pid, buf) in list(running.items()):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.close(fd)
                os.waitpid(pid, 0)
                yield i, ("__killed__", "")
            running.clear()
            for i in pend:
                yield i, ("__killed__", "")
            break


# models must be picklable and refer to variables by name
def named(model):
    return {t.x: v for t, v in model.items()}
