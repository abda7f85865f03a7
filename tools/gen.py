#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from checks/props.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/checks"]
import props
rows, checks = [], []
for p in list(props.P.values()) + list(props.NA.values()):
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}})
    assert len(p["title"]) <= 80, p["id"]
for p in props.P.values():
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                   "technique": p.get("technique", "static value-graph equivalence with specification programs over clang's typed AST"), "level": "other",
                   "level_note": "Static analysis of the current sources for all inputs: " + p["how"] + ". Trusts the clang front end, the library models and the specification programs; assumes " + "; ".join(p["assume"]) + "."})
with open(V + "/properties.jsonl", "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NA.values()],
     "notes": "No hooks in /repo. Every check exports facts from /repo's current working tree with a clang plugin-free tool built in setup (tools/tqfacts.cpp) and decides in Python."}
with open(V + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
import glob
d = open(V + "/tools/DESIGN.in.md").read()
kf = json.load(open(V + "/known_findings.json"))
d = d.replace("@@PROPS@@", "\n".join("* **%s — %s.** %s Groups: %s. Cost: a few seconds." % (p["id"], p["title"], p["how"][0].upper() + p["how"][1:] + ".", ", ".join("`%s`" % x for x in p["groups"])) for p in props.P.values()))
d = d.replace("@@NA@@", "\n".join("* **%s — %s**: %s" % (p["id"], p["title"], p["reason"]) for p in props.NA.values()))
d = d.replace("@@FINDINGS@@", "\n".join(["* " + x for x in kf["fixed"]] + ["* known finding: property=%s %s — %s" % (k["property"], k["what"], k["why_not_fixed"]) for k in kf["findings"]]))
caught = json.load(open(V + "/tools/seeds.json")) if os.path.exists(V + "/tools/seeds.json") else {}
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"], j["needs"], caught.get(i, "?")))
d = d.replace("@@SEEDS@@", "\n".join(rows))
with open(V + "/DESIGN.md", "w") as f: f.write(d)
