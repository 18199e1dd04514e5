#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sims/families.json (run by hand when a check is added)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fam = json.load(open(os.path.join(R, "sims/families.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
have = {p: f for f, ps in fam.items() for p in ps}
PURE = {
 "Q01": "pure function of one text and one offset: no schedule, clock, I/O, fault or second party for it to depend on; what a running editor/server pair depends on of it is decided under D01 and D02",
 "Q02": "pure function of its argument: nothing to schedule and no fault to inject",
 "Q03": "pure function of one identifier: nothing to schedule and no fault to inject",
 "Q04": "pure function of one text: nothing to schedule and no fault to inject",
 "Q05": "pure function of one grammar (its I/O and reproducibility are decided under G01 and G02): deciding it is input enumeration and compilation, not simulation",
 "Q06": "a counter behind &mut self: exclusive access leaves no interleaving, and nothing in it can fail",
 "Q07": "pure cursor arithmetic over one string: nothing to schedule and no fault to inject",
 "Q09": "pure tables and integer parsing: nothing to schedule and no fault to inject",
}
checks = []
for i in ids:
    if i not in have:
        continue
    note = json.load(open(os.path.join(R, "sims/notes.json"))).get(have[i], "")
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": note + " Assumes: " + "; ".join(fam[have[i]][i]) + ".",
    })
na = [{"property": i, "reason": PURE.get(i, "its simulation is not built yet")} for i in ids if i not in have]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every seam is a trait, callback, closure or libc symbol. Every check builds /repo's crates twice, without debug assertions (rel) and with them and chain-map's thread-safe feature (dbg)."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
