#!/usr/bin/env python3
"""Confirm planted changes in a scratch copy of the repository.

usage: tools/seedtest.py ID...     (no check uses this file)

For every id: the patch applies, everything builds, the existing tests give the
baseline results, the demonstration passes on the clean tree and fails with the
patch."""
import json, os, subprocess, sys
SC = "/tmp/sc/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    if not os.path.exists(SC):
        os.makedirs("/tmp/sc")
        sh("cp -a /repo /tmp/sc/repo")
        sh("cp -a /opt/vp /tmp/sc/vp && sed -i 's#/repo#/tmp/sc/repo#g; s#/opt/vp#/tmp/sc/vp#g' /tmp/sc/vp/*.sh /tmp/sc/vp/*.py")
    base = json.load(open("/opt/vp/BASELINE.json"))
    for sid in sys.argv[1:]:
        d = f"{VERIF}/seeded/{sid}"
        sh("git checkout -q -- . ", cwd=SC)
        demo0 = None
        if os.environ.get("CLEAN", "1") == "1":
            p = sh(f"bash {d}/demo.sh", cwd=SC); demo0 = p.returncode
            if demo0: print(p.stdout[-1500:])
        p = sh(f"git apply {d}/patch.diff", cwd=SC)
        if p.returncode:
            print(sid, "patch does not apply", p.stdout); continue
        p = sh(f"bash {d}/demo.sh", cwd=SC); demo1 = p.returncode; dout = p.stdout[-300:]
        if os.environ.get("FAST"):
            print(sid, "demo clean", demo0, "patched", demo1, dout); continue
        p = sh("bash /tmp/sc/vp/build.sh", cwd=SC)
        if p.returncode:
            print(sid, "does not build", p.stdout[-2000:]); continue
        p = sh("bash /tmp/sc/vp/test.sh /tmp/sc/out.json", cwd=SC)
        out = json.load(open("/tmp/sc/out.json"))
        bad = compare(base, out)
        print(sid, "demo clean", demo0, "patched", demo1, "tests", "ok" if not bad else f"FAIL {len(bad)} {bad[:4]}", dout.strip().replace("\n", " | "))
        sys.stdout.flush()
    sh("git checkout -q -- .", cwd=SC)

def compare(base, out):
    ok = set(out["passed"])
    return [t for t in base["stable"] if t not in ok]

main()
