#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from properties.jsonl, pbt/meta.py, known_findings.json and seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pbt.meta import CHECKS
head = open(V + "/tools/design_head.md").read()
tail = open(V + "/tools/design_tail.md").read()
notes = json.load(open(V + "/tools/design_notes.json"))
f = json.load(open(V + "/known_findings.json"))["findings"]
out = [head, "## The properties\n"]
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    c = CHECKS[p["id"]]
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    out.append("*Decided by:* %s\n" % c["rule"])
    out.append("*Oracle:* %s.%s\n" % (notes.get(p["id"]) or c.get("trusts") or "the same operations on a Python list", ""))
    out.append("*Bounds:* about %d generated cases per run in the quick tier, %d in the thorough one (plus the enumeration); builds: %s.\n" % (
        8 * c["quick"], 8 * c["thorough"], ", ".join(v for v, _ in c["variants"])))
known = "\n".join("* %s: %s (%s)" % (x["property"], x["what"], x["why_not_fixed"]) for x in f if x["kind"] == "known")
book = json.load(open(V + "/tools/seeded.json"))
rows = ["| bug | property | what it needs | result |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), ", ".join("%s %s" % x for x in book.get(d, {}).items())))
tail = tail.replace("{nfix}", str(sum(x["kind"] == "fixed" for x in f))).replace("{known}", known).replace("{seeded}", "\n".join(rows))
open(V + "/DESIGN.md", "w").write("\n".join(out) + tail)
