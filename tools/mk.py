#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "tools"))
from props import P
from gv.run import MODULES
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        o = {"id": d["id"], "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["text"]},
             "why_tests_cant": d["why"], "anchors": {"files": d["files"], "mechanism": [{"name": a, "where": b} for a, b in d["mech"]]}}
        if d["observe"]:
            o["anchors"]["observe_at"] = d["observe"]
        f.write(json.dumps(o) + "\n")
checks, na = [], []
for d in P:
    if d["na"]:
        na.append({"property": d["id"], "reason": d["na"]})
    elif d["id"] not in MODULES:
        na.append({"property": d["id"], "reason": "check not built yet"})
    else:
        checks.append({"property": d["id"], "quick_cmd": "./check " + d["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + d["id"],
                       "evidence_file": "evidence/%s.json" % d["id"], "technique": d["technique"], "level": "other", "level_note": d["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: a rustc_private driver extracts MIR, types, statics and inline assembly from /repo's current tree on every run; Python rules decide. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")

D = os.path.join(H, "DESIGN.md")
s = open(D).read()
A, B = "<!-- per-property: written by tools/mk.py -->", "<!-- end per-property -->"
i, j = s.index(A) + len(A), s.index(B)
t = "\n"
for d in P:
    if not d["na"]:
        t += "\n### %s %s\n\nAnchored in: %s.\n\n*Decided by:* %s.\n\n*Quantified over:* %s.\n\n*Beyond tests:* %s\n\n*Bounds and trust:* %s\n" % (
            d["id"], d["title"], ", ".join("`%s`" % x for x in d["files"][:6]), (d["technique"] or "").rstrip("."), d["text"].rstrip("."), d["why"], d["note"] or "none beyond the common ones.")
t += "\n### Not addressed\n\n" + "".join("* **%s %s** — %s\n" % (d["id"], d["title"], d["na"]) for d in P if d["na"]) + "\n"
s = s[:i] + t + s[j:]
A, B = "<!-- seeds -->", "<!-- end seeds -->"
i, j = s.index(A) + len(A), s.index(B)
t = "\n| seed | property | breaks | needs |\n|---|---|---|---|\n"
for n in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", n, "meta.json")))
    t += "| %s | %s | %s | %s |\n" % (n, m["property"], m["what_it_breaks"], m["needs"])
open(D, "w").write(s[:i] + t + s[j:])
