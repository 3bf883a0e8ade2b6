#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (so that the two stay in step with checks.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": a, "where": "src/" + b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


def na(id, reason):
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(V, "tools/proplist.py")).read())

checks = json.load(open(os.path.join(V, "checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for i in ids:
    assert (i in checks) != (i in [n["property"] for n in NA]), i
hook = os.popen("git -C /repo log --format=%H --grep='^verif:' 2>/dev/null").read().split()
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(louis_verif)",
               "enable": "RUSTFLAGS='--cfg louis_verif' LOUIS_VERIF_PROBE=/verif/harness/probes/<probe>.rs (check.py sets both)",
               "source_commits": hook},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                 "thorough_cmd": "python3 check.py %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": checks[i].get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo on every run, with bounded executable contracts for replay"),
                 "level": checks[i].get("level", "proof"),
                 "level_note": checks[i]["note"],
                 "theorems": checks[i].get("theorems", [])} for i in ids if i in checks],
     "not_applicable": NA,
     "notes": "See DESIGN.md. Proof obligations are regenerated from /repo/src on every run; bounded parts are labelled bounded in the evidence."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(m["checks"]), "checks,", len(NA), "n/a")
