#!/usr/bin/env python3
"""plant.py ID [ID..]: in the scratch copy /tmp/wt (built in /tmp/wt/_build) apply seeded/<ID>/patch.diff, build, run the stable tests and the demo; then the demo on the clean tree.
plant.py new ID PROP FILE <<< JSON {"old","new","needs","breaks","demo" (C++), "srcs": [...] }  creates seeded/<ID>."""
import sys, os, json, subprocess, re
WT = "/tmp/wt"; S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build(): r = sh("ninja -C _build 2>&1 | tail -30", cwd=WT); return "ninja: build stopped" not in r.stdout and "FAILED" not in r.stdout, r.stdout
def demo(i): 
    r = sh(f"bash {S}/{i}/demo.sh", cwd=WT, timeout=300); return r.returncode, (r.stdout + r.stderr)[-300:]
def new(i, prop, edits, needs, breaks, demo_cpp=None, srcs=None, lib=True, flags=""):
    d = f"{S}/{i}"; os.makedirs(d, exist_ok=True); sh("git checkout -q -- . ", cwd=WT)
    for f, o, n in edits:
        p = f"{WT}/{f}"; t = open(p).read(); assert t.count(o) == 1, (i, f, t.count(o), o); open(p, "w").write(t.replace(o, n))
    open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=WT).stdout); sh("git checkout -q -- .", cwd=WT)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.cpp", "w").write(demo_cpp)
    if srcs is not None: link = " ".join(srcs) + " " + ("-DBL_STATIC" if True else "")
    else: link = '-L _build -lblend2d -Wl,-rpath,"$PWD/_build"'
    open(f"{d}/demo.sh", "w").write(f'#!/bin/bash\n# exit 0: the behaviour holds\nset -e\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\ng++ -std=c++17 -O1 -DNDEBUG -DBL_BUILD_NO_JIT {flags} -I . "$D/demo.cpp" {link} -lpthread -ldl -lrt -o "$T/demo"\n"$T/demo"\n')
def check(i):
    assert not sh("git status --short -uno", cwd=WT).stdout.strip(), "wt dirty"
    r = sh(f"git apply {S}/{i}/patch.diff", cwd=WT)
    if r.returncode: print(i, "PATCH FAILS", r.stderr); return
    try:
        ok, o = build()
        if not ok: print(i, "BUILD FAILS", o); return
        os.makedirs("/tmp/wtwork", exist_ok=True)
        sh(f"python3 /opt/vp/run_tests.py {WT} {WT}/_build /tmp/wtwork /tmp/wtwork/lines.txt", cwd=WT)
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = {l[5:].strip() for l in open("/tmp/wtwork/lines.txt") if l.startswith("PASS ")}
        miss = [t for t in st if t not in passed]
        rc, out = demo(i)
    finally:
        sh("git checkout -q -- .", cwd=WT)
    build(); rc0, out0 = demo(i)
    good = not miss and rc != 0 and rc0 == 0
    print(i, "GOOD" if good else "BAD", "tests-missing", miss[:4], "demo patched", rc, out.strip()[-120:], "| clean", rc0, out0.strip()[-200:] if rc0 else ""); sys.stdout.flush()
if __name__ == "__main__":
    for i in sys.argv[1:]: check(i)
