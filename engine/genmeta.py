#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/*/meta.json (+ props/NA/*.json)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python3"
props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/props/P*/meta.json") + glob.glob(V + "/props/NA/*.json"),
                key=lambda p: json.load(open(p))["property"]["id"]):
    m = json.load(open(f)); p = m["property"]; props.append(p)
    if "not_applicable" in m:
        na.append({"property": p["id"], "reason": m["not_applicable"]}); continue
    c = m["check"]
    checks.append({"property": p["id"],
        "quick_cmd": f"{PY} engine/run.py {p['id']} quick",
        "thorough_cmd": f"{PY} engine/run.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c.get("technique", "contract-based deductive verification (weakest-precondition style VCs over the LLVM IR of the real functions, SMT/SAT discharge)"),
        "level": c.get("level", "proof"), "level_note": c["level_note"]})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump({"version": 1, "setup_cmd": "bash engine/setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo. Every check recompiles the contract files in props/<id> together with /repo's current sources to LLVM IR (-O0 semantics, mem2reg only) and discharges every obligation anew."},
  open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(json.load(open(V + "/MANIFEST.json")), s)
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, s)
except ImportError: pass
print(len(props), "properties", len(checks), "checks", len(na), "na")
