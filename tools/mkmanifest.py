#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json. Checks are claimed for the ids below."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
src = "".join(open(os.path.join(root, "harness", f)).read() for f in os.listdir(os.path.join(root, "harness")) if f.endswith(".go"))
claimed = set(re.findall(r'\bID:\s+"(C\d+)"', src))

TECH = {
    "C01": ("runtime monitors (bounds, panic, CPU, memory, residual-mutation checks) over generated and mutated hostile inputs", "exploration"),
    "C09": ("fault injection at every I/O call with output prefix and error monitors", "fault_enumeration"),
    "C13": ("fault injection at every I/O call with error propagation monitors", "fault_enumeration"),
    "C27": ("race detector over concurrent workloads with a differential monitor", "exploration"),
}
DEFAULT = ("online differential monitor: real code against an independent reference over generated workloads", "exploration")
NOTES = {}
exec(open(os.path.join(root, "tools", "notes.py")).read()) if os.path.exists(os.path.join(root, "tools", "notes.py")) else None

checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        t, l = TECH.get(i, DEFAULT)
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t,
            "level": l,
            "level_note": NOTES.get(i, "Holds on every execution observed; the workload is deterministic for a given seed. Trusts the independent reference in the harness and the Go runtime."),
        })
    else:
        na.append({"property": i, "reason": "The check is not built yet."})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo: all observed state is exported. Each check builds the harness against /repo's working tree and runs it; see DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
