#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties the explorer implements (mc list) and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
impl = dict(l.split() for l in subprocess.check_output([V + "/target/debug/mc", "list"], text=True).splitlines())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
    "model_checking": "explicit-state model checking: all operation sequences to a depth, real object and reference model in lock-step",
    "fault_enumeration": "exhaustive fault/environment enumeration of the real code against a fault-injecting environment",
    "exploration": "exhaustive enumeration of a bounded input space of the real code against an independent oracle",
}
NOTE = {
    "model_checking": "Every state reachable by at most the stated number of operations from the stated start states is visited and every transition executed on the real code and compared with the model; beyond the bounds (stage, list length, depth) only structured families are covered. Trusts the reference model and rustc.",
    "fault_enumeration": "Every combination of the stated faults is executed on the real code; the network is a stand-in for reqwest with the same interface. Trusts the oracle, the stand-in and rustc.",
    "exploration": "Every input within the stated bounds is executed on the real code and compared with an independent oracle; beyond them only structured families (large stages, boundary places) are covered. Trusts the oracle and rustc.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in impl:
        lv = impl[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[lv], "level": lv, "level_note": NOTE[lv]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through bellframe's public API; the network is replaced by patching the reqwest dependency of the harness crate."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
