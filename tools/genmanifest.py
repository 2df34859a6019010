#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed properties are those in engine/props.py, the rest are not applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import props
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS:
        checks.append({
            "property": i, "quick_cmd": "python3 /verif/check.py %s" % i, "thorough_cmd": "python3 /verif/check.py %s --thorough" % i,
            "technique": props.TECH.get(i, "abstract interpretation of compiled MIR (dataflow fixpoint over a relational width domain, symbolic digit segments and ownership typestate)"),
            "level": "other", "level_note": props.NOTE.get(i, "static proof over the compiler's MIR for all widths and values where discharged; obligations the abstraction cannot establish are listed as undecided in the evidence and are not alarms")})
na = [{"property": i, "reason": NA[i]} for i in ids if i not in props.PROPS]
json.dump({"version": 1, "setup_cmd": "bash /verif/tools/dump.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
