#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "property-based testing with rapid: "
T = {
 "C01": (GEN + "generated definitions against the abstract service they were rendered from", "Tens of thousands of generated definitions per run, each compared in full with the abstract service it was rendered from. Trusts the harness's renderer and its reading of the supported annotation syntax."),
 "C02": (GEN + "random layouts and surroundings of generated definitions (metamorphic, against the abstract service)", "Random comments, white space and declarations between any two tokens, compared with the layout-independent abstract service."),
 "C03": (GEN + "comment placement against the placement model", "Comment groups are generated at known constructs and expected verbatim exactly there."),
 "C04": (GEN + "lossless scanning and positions against an independent count", "Concatenation, unit integrity, line and depth are checked at every unit boundary of generated texts."),
 "C05": (GEN + "model-based histories of reads and push-backs against an index into the straight-through sequence", "Stateful histories on all three readers; the straight-through sequence itself is decided by C04."),
 "C06": (GEN + "robustness search with mutated and truncated definitions; endless runs are confirmed in a limited child process", "Arbitrary and near-valid texts, and all kinds of truncation points; a hang is only reported when a child process uses up a CPU or memory limit."),
}
import importlib.util, sys
p = os.path.join(here, "tools", "manifest_more.py")
if os.path.exists(p):
    ns = {"GEN": GEN}
    exec(open(p).read(), ns)
    T.update(ns["MORE"])
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
na = []
for d in props:
    i = d["id"]
    if i in T:
        tech, note = T[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks drive baron's packages, its command and the code it generates from outside; the commits in /repo are repairs ('fix:'), listed in KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
