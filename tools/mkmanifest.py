"""Writes /verif/MANIFEST.json from pbt/meta.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pbt import meta  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    c = meta.CHECKS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
        continue
    cmd = "python3-vt pbt/run.py " + p["id"]
    note = ("Generated-input search: %s It shows the property for the cases it ran (counts and distribution in the evidence), "
            "not its absence of violations. Trusts %s, the compiler (gcc -O3 as in setup.py, without LTO%s) and Hypothesis." % (
                c["rule"], c.get("trusts", "CPython's list as the model"),
                "; AddressSanitizer at -O1" if any(v == "asan" for v, _ in c["variants"]) else ""))
    checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd,
                       technique=c.get("technique", "property-based testing: Hypothesis-generated operation sequences against a list model, shrunk to a replay file"),
                       level="exploration", level_note=note, evidence_file="evidence/%s.json" % p["id"]))
m = dict(version=1, setup_cmd="python3-vt pbt/build.py plain asan", checks=checks, not_applicable=na,
         notes="No hooks: /repo carries only fix: commits. Each check rebuilds /repo's working tree into /verif/build (ignored by git) "
               "and drives it with generated cases; `python3-vt pbt/run.py <id> --replay FILE` replays one.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
