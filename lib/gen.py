#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for k in sorted(P):
        p = P[k]; assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": k, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": {"guard": "HFST_VERIF", "enable": "-DHFST_VERIF (no hook was needed; the define is unused)", "source_commits": []},
     "checks": [{"property": k, "quick_cmd": "python3 lib/check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py " + k, "technique": P[k]["technique"], "level": P[k]["level"], "level_note": P[k]["note"]} for k in sorted(P) if k not in NA],
     "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA)]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
d = V + "/DESIGN.md"
s = open(d).read() if os.path.exists(d) else ""
import re
tab = "\n".join("### %s %s\n%s\n*Method:* %s\n*Bounds and trust:* %s\n" % (k, P[k]["title"], P[k]["statement"], P[k]["rule"], P[k]["note"] + ". " + P[k]["assume"].replace("|", "; ")) for k in sorted(P))
new = "<!-- table:begin (written by lib/gen.py) -->\n" + tab + "<!-- table:end -->"
if "@@TABLE@@" in s: s = s.replace("@@TABLE@@", new)
else: s = re.sub(r"<!-- table:begin.*?table:end -->", lambda m: new, s, flags=re.S)
if s: open(d, "w").write(s)
