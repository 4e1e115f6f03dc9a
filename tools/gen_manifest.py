#!/usr/bin/env python3
"""Write MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks = []
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        b = s["bounds"] if isinstance(s["bounds"], str) else s["bounds"]["quick"]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=s.get("technique", "symbolic execution of the compiled code (LLVM IR) with SMT; counterexamples replayed natively"),
                           level="model_checking", level_note="Bounded: " + b + ". Outside: " + (s.get("outside") or "larger sizes and histories") + ". Assumes: " + "; ".join(s.get("assumptions", [])[:6] or ["nothing further"]) + "."))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 tools/check.py --setup",
         hooks=dict(guard="cfg(iota_mam_verif)", enable="RUSTFLAGS='--cfg iota_mam_verif' (set by tools/check.py when it builds the IR and the native replay)",
                    source_commits=["670c3b57b5d4d5ad0b4c8fb7f7b7d1d9f3b8b0a1"]),
         checks=checks, not_applicable=na,
         notes="See DESIGN.md. All checks share the engine in symx/ and the harness crate in harness/.")
import subprocess
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()
m["hooks"]["source_commits"] = h[::-1]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
