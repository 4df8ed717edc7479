"""Emits LLVM IR of the libraries from the current working tree, and builds the replay program."""
import atexit, glob, os, shutil, subprocess, tempfile, time

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLCHAIN = "nightly-2026-08-21"
_dir = None
times = {}

CFG = {
    # name: (package, features)
    "cb": ("compiler_builtins", "unstable-public-internals"),
    "cb_arch": ("compiler_builtins", "unstable-public-internals,arch"),
    "libm": ("LIBM", "unstable-float,unstable-public-internals"),
    "libm_arch": ("LIBM", "unstable-float,unstable-public-internals,arch"),
}
FLAGS = ["-C", "codegen-units=1", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "link-dead-code",
         "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "passes=function(sroa)"]


class BuildError(Exception):
    pass


def workdir():
    global _dir
    if _dir is None:
        base = os.environ.get("VERIF_SCRATCH") or "/var/tmp"
        _dir = tempfile.mkdtemp(prefix="irvc-", dir=base if os.path.isdir(base) else None)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_dir, ignore_errors=True))
    return _dir


def _env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    return e


def libm_spec():
    import re
    v = re.search(r'^version\s*=\s*"([^"]+)"', open(f"{REPO}/libm/Cargo.toml").read(), re.M).group(1)
    return f"path+file://{REPO}/libm#{v}"


def cmd(cfg, d):
    pkg, feats = CFG[cfg]
    if pkg == "LIBM":
        pkg = libm_spec()
    return ["cargo", "rustc", "-q", "--offline", "--locked", "-p", pkg, "--no-default-features", "--features", feats,
            "--target-dir", d, "--lib", "--", "--emit=llvm-ir", *FLAGS]


def emit(cfg):
    """-> path of the .ll file"""
    d = os.path.join(workdir(), cfg)
    t0 = time.time()
    c = cmd(cfg, d)
    p = subprocess.run(c, cwd=REPO, env=_env(), capture_output=True, text=True)
    if p.returncode:
        raise BuildError(f"{' '.join(c)}\n{p.stderr[-4000:]}")
    name = "libm" if cfg.startswith("libm") else "compiler_builtins"
    ls = [x for x in glob.glob(d + "/debug/**/*.ll", recursive=True) if os.path.basename(x).startswith(name + "-") and "incremental" not in x]
    if len(ls) != 1:
        raise BuildError(f"expected one IR file, got {ls}")
    times[cfg] = round(time.time() - t0, 2)
    return ls[0]


def emit_driver(name):
    """IR of a harness crate of /verif/<name> and of the libraries it depends on: list of .ll files"""
    d = os.path.join(workdir(), name)
    t0 = time.time()
    e = _env()
    fl = FLAGS
    if name.endswith("_rel"):       # as in release builds: no debug assertions, wrapping arithmetic
        name = name[:-4]
        fl = [x.replace("=on", "=off") for x in FLAGS]
    e["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(["--emit=llvm-ir,metadata,link"] + fl)
    p = subprocess.run(["cargo", "build", "-q", "--offline", "--locked", "--target-dir", d, "--lib"],
                       cwd=os.path.join(HERE, name), env=e, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    times[name] = round(time.time() - t0, 2)
    r = {}
    for x in glob.glob(d + "/debug/**/*.ll", recursive=True):
        if "incremental" not in x and "build_script" not in x:
            r.setdefault(os.path.basename(x), x)
    return list(r.values())


_rp = {}


def replay_bin(arch=False):
    if arch in _rp:
        return _rp[arch]
    d = os.path.join(workdir(), "replay" + ("_arch" if arch else ""))
    c = ["cargo", "build", "-q", "--offline", "--locked", "--target-dir", d]
    run = lambda fs: subprocess.run(c + ["--features", ",".join(fs)], cwd=os.path.join(HERE, "replay"), env=_env(), capture_output=True, text=True)
    fs = ["arch"] if arch else []
    for more in (["drivers", "dispatch"], ["drivers"], ["dispatch"], []):
        p = run(fs + more)
        if not p.returncode:
            break
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    _rp[arch] = os.path.join(d, "debug", "replay")
    return _rp[arch]


def replay(lines, arch=False, timeout=60):
    """lines: list of 'fn hex hex'; -> list of outputs ('panic' / 'abort' / 'hang' or list of ints or raw text)"""
    b = replay_bin(arch)
    out = []
    i = hangs = 0
    while i < len(lines):
        p = subprocess.Popen([b], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        hang = False
        try:
            so, _ = p.communicate("\n".join(lines[i:]) + "\n", timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            so, _ = p.communicate()
            hang = True
        got = so.split("\n")[:-1]
        out += got
        i += len(got)
        if p.returncode == 0 and not hang:
            break
        # output is flushed line by line: the next line is the one that did not return
        out.append("hang" if hang else "abort")
        i += 1
        if hang:
            timeout, hangs = 5, hangs + 1
            if hangs == 3:
                out += ["unknown"] * (len(lines) - i)
                break
    return out


def parse_out(s):
    if s in ("panic", "abort", "hang", "unknown"):
        return s
    try:
        return [int(x, 16) for x in s.split()]
    except ValueError:
        return s
