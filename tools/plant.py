#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turn edit specifications into /verif/seeded/<id>/ and try them.

SPEC.py defines SEEDS, a list of dict(id, prop, edits=[(file, old, new), ...], needs, breaks, demo[, extra]).
Each is applied to a scratch copy of /repo that is bind-mounted over /repo in a mount namespace of its own; there it
is built, tested, its demonstration is run, and then the check of its property (and any further checks in `extra`)."""
import json, os, re, shutil, subprocess, sys

V = "/verif"
P = "/tmp/w/plant"
IDS = set(sys.argv[2:])
spec = {}
exec(open(sys.argv[1]).read(), spec)

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 /opt/vp/venv/bin/python "$here/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
'''


def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def ns(cmd):
    return sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (P, cmd))


for s in spec["SEEDS"]:
    if IDS and s["id"] not in IDS:
        continue
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(P, ignore_errors=True)
    sh("cp -a /repo %s" % P)
    bad = False
    for f, old, new in s["edits"]:
        p = os.path.join(P, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            print(s["id"], "edit matches", n, "times in", f)
            bad = True
            break
        open(p, "w").write(t.replace(old, new))
    if bad:
        continue
    diff = sh("cd %s && git diff" % P).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(HEAD + s["demo"].strip() + "\n")
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    res = {}
    r = sh("cd /repo && bash %s/demo.sh" % d)
    res["demo0"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:])
    # original lines changed?
    orig = 0
    for f in {e[0] for e in s["edits"]}:
        hunks = sh("cd %s && git diff -U0 -- %s" % (P, f)).stdout
        ours = set(sh("git -C /repo rev-list ad7793e..HEAD").stdout.split())
        for a, n in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
            n = 1 if n == "" else int(n)
            if n:
                for line in sh("git -C /repo blame -l -s -L%s,+%d -- %s" % (a, n, f)).stdout.splitlines():
                    if line.lstrip("^")[:39] not in {c[:39] for c in ours}:
                        orig += 1
    res["orig_lines"] = orig
    r = ns("bash /opt/vp/build.sh >/tmp/w/pb.log 2>&1; echo rc $?")
    if "rc 0" not in r.stdout:
        print(s["id"], "BUILD", sh("grep -A5 error: /tmp/w/pb.log").stdout[:1500])
        continue
    r = ns("bash /opt/vp/test.sh /tmp/w/pout.json 2>/dev/null | tail -1")
    res["tests"] = r.stdout.strip()[-40:]
    r = ns("bash %s/demo.sh" % d)
    res["demo1"] = r.returncode
    out = r.stdout.strip()[-300:]
    for c in [s["prop"]] + s.get("extra", []):
        if os.environ.get("NOCHECK"):
            break
        r = sh("cd %s && PFU_REPO=%s python3-vt pbt/run.py %s" % (V, P, c))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        res[c] = "caught x%d" % len(v) if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])
    book = os.path.join(V, "tools", "seeded.json")
    known = json.load(open(book)) if os.path.exists(book) else {}
    known[s["id"]] = {c: r.split()[0] for c, r in res.items() if re.fullmatch(r"C\d\d", c)} or known.get(s["id"], {})
    json.dump(dict(sorted(known.items())), open(book, "w"), indent=1)
    print(s["id"], res, "|", out.splitlines()[-1:] , flush=True)
shutil.rmtree(P, ignore_errors=True)
