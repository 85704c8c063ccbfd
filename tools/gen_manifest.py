#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
checks = []
for pid, c in props.PROPS.items():
    tech = []
    if c["units"]: tech.append("Verus contracts on functions extracted from /repo/src on every run (units: " + ", ".join(c["units"]) + ")")
    if c["kani"]: tech.append("Kani full-domain harnesses on the real crate")
    tech.append("executable contract run on the real crate (bounded stand-in for what surrounds the proofs)" if tech else "executable contract run on the real crate (bounded)")
    note = ("Proved for all inputs: the contracts of the functions listed in the evidence file. " if c["units"] or c["kani"] else "") + \
        (c["outside"] + " " if c["outside"] else "") + \
        "What surrounds them (I/O glue, composition of the public entry points) is compared with the property's executable contract on generated inputs: bounded, never counted as proved."
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json", "technique": "; ".join(tech), "level": c["level"], "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: private functions are extracted from the source text", "source_commits": []},
     "checks": checks, "not_applicable": [], "notes": "See DESIGN.md. Known findings and repaired defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
