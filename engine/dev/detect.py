#!/usr/bin/env python3
"""detect.py ID..: runs the quick check of the bug's property against a scratch copy (/tmp/wt2) with the bug applied; prints exit code, time and alarm lines."""
import sys, os, json, subprocess, time
WT = "/tmp/wt2"; S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(WT): sh(f"mkdir {WT} && cd /repo && git archive HEAD | tar x -C {WT} && cd {WT} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x")
for i in sys.argv[1:]:
    sh("git checkout -q -- .", cwd=WT); r = sh(f"git apply {S}/{i}/patch.diff", cwd=WT)
    if r.returncode: print(i, "patch fails", r.stderr); continue
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]; t = time.time()
    r = sh(f"/opt/veriftools/pyvenv/bin/python3 engine/run.py {p} quick", cwd="/verif", env=dict(os.environ, VERIF_REPO=WT, VERIF_BUILD="/tmp/vb"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, "CAUGHT" if r.returncode == 1 and v else "MISSED", f"rc={r.returncode} {time.time()-t:.0f}s", len(v), "with input:", len([x for x in v if not x.endswith("found")]), v[:2], r.stdout[-300:] if not v else "", r.stderr[-300:]); sys.stdout.flush()
    sh("git checkout -q -- .", cwd=WT)
