#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and known_findings.json from tools/{props.py,fixes.txt,known.json,notes.json}."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([sys.executable, V + "/tools/props.py"], stdout=subprocess.PIPE, check=True, universal_newlines=True).stdout
open(V + "/properties.jsonl", "w").write(out)
props = [json.loads(l) for l in out.splitlines()]
notes = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/harness/checks/%s.py" % i.lower()):
        n = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "runtime monitoring: " + n.get("technique", "reference-model oracle over observed executions"),
                       "level": "exploration",
                       "level_note": n.get("note", "Held on the executions driven by the seeded workload; nothing is claimed about inputs not generated. Trusts the plain-Python reference in harness/.")})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "no monitor built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes public API results from outside, so there is no guard."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
F = []
for l in open(V + "/tools/fixes.txt"):
    l = l.rstrip("\n")
    if l:
        pid, com, what = l.split("|", 2)
        F.append({"property": pid, "status": "fixed", "commit": com, "what": what,
                  "entry": "fixed: property=%s %s %s" % (pid, com, what)})
for k in json.load(open(V + "/tools/known.json")):
    k["status"] = "known"
    F.append(k)
json.dump({"findings": F}, open(V + "/known_findings.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed", len(F), "findings")
