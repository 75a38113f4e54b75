#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/config.json from one table (tools/props.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, NOTES
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["forall"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["obs"], "hook_needed": None}}
        if p.get("state"):
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks, conf = [], {}
TECH = "symbolic execution of the real Go code (go/ssa) with an SMT solver (z3) deciding the assertion over all inputs within bounds; counterexamples replayed natively"
for p in PROPS:
    conf[p["id"]] = {"quick_s": p.get("quick_s", 420), "thorough_s": p.get("thorough_s", 1500),
                     "bounds": p.get("bounds", ""), "outside": p.get("outside", "")}
    if p["id"] in NOT_APPLICABLE or not p.get("claimed"):
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "./check.sh %s quick" % p["id"],
                   "thorough_cmd": "./check.sh %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": TECH, "level": "model_checking",
                   "level_note": ("Holds for every value of the symbolic inputs within these bounds: %s "
                                  "Outside the bounds: %s Trusted: the engine's Go semantics (sampled paths are compared with native runs on every run), z3, "
                                  "and the ideal models of hash functions and signatures.") % (p.get("bounds", ""), p.get("outside", ""))})
na = [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
for p in PROPS:
    if not p.get("claimed") and p["id"] not in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
json.dump(conf, open(os.path.join(ROOT, "harness/config.json"), "w"), indent=1)

def block(text, name, body):
    a, b = "<!-- %s: begin -->" % name, "<!-- %s: end -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + text[j:]
d = open(os.path.join(ROOT, "DESIGN.md")).read()
body = ""
for p in PROPS:
    body += "**%s %s.** " % (p["id"], p["title"])
    if p.get("claimed"):
        body += "%sBounds: %s Outside: %s\n\n" % (p.get("how", ""), p["bounds"], p["outside"])
    else:
        body += "Not claimed: %s\n\n" % NOT_APPLICABLE.get(p["id"], "check not built yet")
d = block(d, "generated", body)
sd = os.path.join(ROOT, "seeded")
rows = "| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
caught = {}
try:
    caught = json.load(open(os.path.join(ROOT, "tools/caught.json")))
except FileNotFoundError:
    pass
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mm = json.load(open(os.path.join(sd, s, "meta.json")))
    rows += "| %s | %s | %s | %s | %s |\n" % (s, mm["property"], mm["what_it_breaks"], mm["needs"], caught.get(s, "?"))
d = block(d, "seeded", rows)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
