#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
from props import PROPS
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError:
    pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    b = p["bounds"][0] if isinstance(p["bounds"], (list, tuple)) else p["bounds"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 vp/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 vp/check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique", "symbolic execution of the compiled IR of the real code, Z3 deciding every branch and assertion; counterexamples replayed natively"),
        "level": "model_checking",
        "level_note": "All values within the bounds: " + b + (" Outside: " + p["outside"] + "." if p.get("outside") else "") + " Trusts clang's IR, the engine and the library models (paths sampled against a native sanitizer build).",
    })
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "make -s -C engine -j8", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
