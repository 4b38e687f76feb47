#!/opt/veriftools/pyvenv/bin/python3
"""replay.py PROPERTY FILE: re-executes the input of a replay file against the real code (address/UB sanitizers on)."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
prop, path = sys.argv[1:3]
txt = open(path).read()
m = re.search(r"harness (\S+\.cpp):(\w+)", txt)
src = os.path.join(run.ROOT, "props", prop, m.group(1)); d = run.directives(src)
os.makedirs(run.BUILD, exist_ok=True)
n = run.Native(src, d, f"{prop}_{m.group(1)[:-4]}")
ok, out = n.replay(m.group(2), os.path.abspath(path))
print(out); print("FAILURE REPRODUCED" if ok else "no failure with this input")
sys.exit(1 if ok else 0)
