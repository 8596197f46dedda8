"""Known findings: defects of the tree that are recorded rather than repaired.

known_findings.json lists them; each entry of kind "known" names a replay
case.  demonstrate() runs that case: while it still fails, the check prints the
KNOWN-FINDING line.  Nothing is suppressed anywhere else: the generators of the
check avoid exactly the listed situation.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def entries():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def demonstrate(cid, pkgs, B):
    for e in entries():
        if e.get("kind") != "known" or e["property"] != cid:
            continue
        from pbt import run as R
        variant = e.get("variant", "asan")
        pkg = pkgs.get(variant) or B.build(variant)
        p = subprocess.run([sys.executable, os.path.join(VERIF, e["script"])], env=R.env_for(variant, pkg),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        if p.returncode != 0:
            yield "KNOWN-FINDING: property=%s %s" % (cid, e["what"])
