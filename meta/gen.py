#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

P = []      # claimed
NA = []     # not claimed

def prop(id, title, statement, over, text, tests, files, mech, bounds, quick=None, thorough=None, assume=(), note="", state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  bounds=bounds, quick=quick or 150, thorough=thorough or 700, assume=list(assume), note=note, state=list(state), na=na))

exec(open("meta/table.py").read())

with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"],
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "hook_needed": None},
        }) + "\n")

claimed = [p for p in P if not p["na"]]
checks = {}
for p in claimed:
    checks[p["id"]] = {"pkg": p["id"].lower(), "quick_s": p["quick"], "thorough_s": p["thorough"],
                       "bounds": p["bounds"], "assumptions": p["assume"]}
json.dump(checks, open("checks.json", "w"), indent=1); open("checks.json", "a").write("\n")

man = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} quick",
        "thorough_cmd": f"./run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "bounded symbolic execution of the real code's Go SSA (thema + CUE library) with an SMT solver (z3, bit-vectors) deciding every branch and assertion; counterexamples replayed on the compiled code",
        "level": "model_checking",
        "level_note": ("Every value within the stated bounds is decided by the solver; nothing outside them. Bounds: " + p["bounds"] +
                       (" " + p["note"] if p["note"] else "") +
                       " Trusts the SSA interpreter (checked on every run by replaying a model of each path on the natively compiled code), the word-level summaries of big-number arithmetic on symbolic operands, and z3."),
    } for p in claimed],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "No hooks in /repo: harnesses are overlaid as packages under github.com/grafana/thema/zz_verif when the engine loads and builds the tree. See DESIGN.md.",
}
json.dump(man, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
