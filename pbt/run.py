"""Parent side: builds the tree, runs the shards of a check, confirms and
minimises failures, writes evidence.

    python3-vt pbt/run.py C01                 run the check (VERIF_SEED, VERIF_TIER)
    python3-vt pbt/run.py C01 --replay FILE   run one recorded case
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from types import SimpleNamespace

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from pbt import build as B                      # noqa: E402
from pbt import engine as E                     # noqa: E402
from pbt import findings, meta                  # noqa: E402

PY = sys.executable
HANG_S = 120
EXTRA_ENV = {}


def env_for(variant, pkg):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONPATH"] = pkg
    env["PFU_PKG"] = pkg
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.pop("PFU_SHRINKING", None)
    env.update(EXTRA_ENV)
    if variant == "asan":
        env["LD_PRELOAD"] = B.libasan()
        env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=1:"
                               "hard_rss_limit_mb=3000:malloc_context_size=12:quarantine_size_mb=64")
        env["PYTHONMALLOC"] = "malloc"
    return env


def spawn(args, env, **kw):
    return subprocess.Popen([PY, os.path.join(HERE, "engine.py"), json.dumps(args)], env=env, cwd=VERIF,
                            start_new_session=True, **kw)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def describe(rc):
    if rc == "hang":
        return "did not terminate"
    if rc == 86:
        return "AddressSanitizer reported an error"
    if isinstance(rc, int) and rc < 0:
        return "killed by signal %d" % -rc
    return "exit status %s" % rc


def replay_once(check, variant, pkg, path, timeout=60):
    args = dict(mode="replay", check=check.id, variant=variant, replay_file=path)
    p = spawn(args, env_for(variant, pkg), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", b""
    return p.returncode, out


def is_failure(rc):
    return rc not in (0, E.EXIT_INVALID)


def kind(rc):
    """A crash must not shrink into a mere wrong answer (of a senseless case)."""
    return rc if rc == "hang" else "wrong" if rc == E.EXIT_VIOLATION else "crash"


class Shrinker:
    """Delta debugging over the JSON of a case, one forked process per try."""

    def __init__(self, check, variant, pkg, budget, like):
        self.like = kind(like)
        env = env_for(variant, pkg)
        env["PFU_SHRINKING"] = "1"
        self.p = spawn(dict(mode="fork", check=check.id, variant=variant), env,
                       stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.end = time.time() + budget
        self.tries = 0

    def fails(self, case):
        if time.time() > self.end:
            return False
        self.tries += 1
        try:
            self.p.stdin.write(E.dumps(case) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline().strip()
        except Exception:
            self.end = 0
            return False
        if not line:
            self.end = 0
            return False
        rc = line if line == "hang" else int(line)
        return is_failure(rc) and kind(rc) == self.like

    def close(self):
        kill(self.p)

    def shrink(self, case):
        if not self.fails(case):
            return case
        changed = True
        while changed and time.time() < self.end:
            changed = False
            for path in self.paths(case):
                cur = self.get(case, path)
                if isinstance(cur, list) and cur:
                    step = max(1, len(cur) // 2)
                    while step >= 1:
                        i = 0
                        while i < len(self.get(case, path)):
                            lst = self.get(case, path)
                            cand = self.put(case, path, lst[:i] + lst[i + step:])
                            if self.fails(cand):
                                case = cand
                                changed = True
                            else:
                                i += step
                        step //= 2
                elif isinstance(cur, int) and not isinstance(cur, bool) and cur not in (0, 1):
                    for v in (0, 1, cur // 2):
                        if v != cur and abs(v) < abs(cur) and self.fails(self.put(case, path, v)):
                            case = self.put(case, path, v)
                            changed = True
                            break
        return case

    def paths(self, case):
        """Paths of the lists and ints in case, outermost first (recomputed
        lazily; a path that no longer exists is skipped)."""
        out = []

        def walk(x, p):
            if isinstance(x, list):
                out.append(p)
                for i, y in enumerate(x[:200]):
                    walk(y, p + [i])
            elif isinstance(x, dict):
                for k in sorted(x):
                    walk(x[k], p + [k])
            elif isinstance(x, int):
                out.append(p)

        walk(case, [])
        out.sort(key=len)
        for p in out[:600]:
            yield p

    @staticmethod
    def get(case, path):
        for k in path:
            try:
                case = case[k]
            except (IndexError, KeyError, TypeError):
                return None
        return case

    @staticmethod
    def put(case, path, value):
        if not path:
            return value
        if isinstance(case, list):
            c = list(case)
        else:
            c = dict(case)
        c[path[0]] = Shrinker.put(case[path[0]], path[1:], value)
        return c


def report(check, variant, case, msg, replays):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (check.id, "%d" % os.getpid()))
    with open(path, "w") as f:
        json.dump(dict(property=check.id, variant=variant, message=msg, confirmed=replays, case=case), f, indent=1)
    print(msg.strip()[:3000])
    print("case: %s" % E.dumps(case)[:3000])
    print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True)


def confirm(check, variant, pkg, case, tmp, n=3):
    path = os.path.join(tmp, "candidate.json")
    with open(path, "w") as f:
        json.dump(dict(case=case), f)
    rcs = []
    out = b""
    for _ in range(n):
        rc, o = replay_once(check, variant, pkg, path)
        if not is_failure(rc):
            return None, rc, o
        rcs.append(rc)
        out = o
    return True, rcs, out


def main():
    t0 = time.time()
    cid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = SimpleNamespace(id=cid, **meta.CHECKS[cid])
    EXTRA_ENV.update(getattr(check, "env", {}))
    if hasattr(check, "prepare"):     # e.g. compiles the oracle
        EXTRA_ENV.update(importlib.import_module(check.prepare).prepare() or {})
    if "--replay" in sys.argv:
        path = sys.argv[sys.argv.index("--replay") + 1]
        with open(path) as f:
            variant = json.load(f).get("variant", "plain")
        pkg = B.build(variant)
        rc, out = replay_once(check, variant, pkg, path)
        sys.stdout.write(out.decode(errors="replace"))
        print("replay: %s" % ("violated" if is_failure(rc) else "held"))
        sys.exit(1 if is_failure(rc) else 0)

    nshards = int(os.environ.get("PFU_SHARDS", "8"))
    variants = []
    for v, share in check.variants:
        variants += [v] * max(1, round(share * nshards))
    variants = (variants * nshards)[:nshards]
    pkgs = {v: B.build(v) for v in dict.fromkeys(variants)}
    count = getattr(check, tier)
    cap = 240 if tier == "quick" else 3600
    scale = float(os.environ.get("PFU_SCALE", "1"))
    count = max(1, int(count * scale))
    tmp = tempfile.mkdtemp(prefix="pfu-%s-" % cid)
    code = 0
    violations = 0
    notes = []
    try:
        shards = []
        for i, v in enumerate(variants):
            args = dict(mode="run", check=cid, variant=v, shard=i, nshards=nshards, seed=seed, tier=tier,
                        count=count, cap_s=cap, case_file=os.path.join(tmp, "%d.case" % i),
                        out_file=os.path.join(tmp, "%d.json" % i))
            err = open(os.path.join(tmp, "%d.err" % i), "wb")
            shards.append(dict(args=args, variant=v, t=time.time(), seq=0,
                               p=spawn(args, env_for(v, pkgs[v]), stdout=err, stderr=err)))
        failures = []
        running = list(shards)
        while running:
            time.sleep(0.05)
            for s in list(running):
                rc = s["p"].poll()
                if rc is None:
                    q = E.Recorder.seq_of(s["args"]["case_file"])
                    if q != s["seq"]:
                        s["seq"], s["t"] = q, time.time()
                    elif time.time() - s["t"] > HANG_S:
                        kill(s["p"])
                        rc = "hang"
                if rc is None:
                    continue
                running.remove(s)
                s["rc"] = rc
                if rc != 0:
                    failures.append(s)
                    # let the other shards finish what they can quickly, no more
                    for o in running:
                        kill(o["p"])
                        o["rc"] = None
                    running = []
                    break
        # ---- failures
        for s in failures:
            pkg = pkgs[s["variant"]]
            v = s["variant"]
            with open(os.path.join(tmp, "%d.err" % s["args"]["shard"]), errors="replace") as f:
                err = f.read()
            res = None
            if os.path.exists(s["args"]["out_file"]):
                with open(s["args"]["out_file"]) as f:
                    res = json.load(f)
            if s["rc"] == E.EXIT_VIOLATION and res and "case" in res:
                ok, rcs, out = confirm(check, v, pkg, res["case"], tmp)
                if ok:
                    report(check, v, res["case"], res["msg"], rcs)
                    violations += 1
                    code = 1
                    continue
                why = res["msg"]
                case = res["case"]
            elif s["rc"] == 4:
                sys.stderr.write(err[-4000:])
                print("error in the machinery of %s: %s" % (cid, (res or {}).get("status")))
                code = 2
                continue
            else:
                seq, case = E.Recorder.read(s["args"]["case_file"])
                why = "%s\n%s" % (describe(s["rc"]), asan_summary(err))
                if case is not None:
                    ok, rcs, out = confirm(check, v, pkg, case, tmp)
                    if ok:
                        if rcs[-1] != "hang":
                            sh = Shrinker(check, v, pkg, 40, rcs[-1])
                            small = sh.shrink(case)
                            sh.close()
                            if small is not case:
                                ok2, rcs2, out2 = confirm(check, v, pkg, small, tmp)
                                if ok2:
                                    case, rcs, out = small, rcs2, out2
                        msg = "%s\n%s" % (describe(rcs[-1]), asan_summary(out.decode(errors="replace")))
                        report(check, v, case, msg, [str(r) for r in rcs])
                        violations += 1
                        code = 1
                        continue
            # not reproducible on its own: state left by earlier cases of the
            # shard matters; the shard itself is deterministic, so run it again
            hits = 0
            for _ in range(2):
                a2 = dict(s["args"], out_file=os.path.join(tmp, "again.json"), case_file=os.path.join(tmp, "again.case"))
                err2 = open(os.path.join(tmp, "again.err"), "wb")
                p = spawn(a2, env_for(v, pkg), stdout=err2, stderr=err2)
                try:
                    rc = p.wait(timeout=250)
                except subprocess.TimeoutExpired:
                    kill(p)
                    rc = 0 if s["rc"] != "hang" else "hang"
                if rc not in (0, 4):
                    hits += 1
            if hits == 2:
                report(check, v, dict(shard=s["args"], last=case), "the whole shard fails every time: " + why, [str(s["rc"])])
                violations += 1
                code = 1
            else:
                notes.append("a failure did not reproduce (%d of 2 re-runs of the shard): %s" % (hits, why[:500]))
                print("note: unreproducible failure ignored: %s" % why[:1500])
        # ---- known findings
        for line in findings.demonstrate(cid, pkgs, B):
            print(line)
        # ---- evidence
        ev = 0
        enum = 0
        labels = {}
        samples = []
        seen = set()
        for s in shards:
            try:
                with open(s["args"]["out_file"]) as f:
                    r = json.load(f)
                with open(s["args"]["out_file"] + ".seen", "rb") as f:
                    b = f.read()
            except OSError:
                q = E.Recorder.seq_of(s["args"]["case_file"])
                ev += q
                continue
            ev += r["evaluations"]
            enum += r["enumerated"]
            for k, n in r["labels"].items():
                labels[k] = labels.get(k, 0) + n
            samples += r["samples"][-1:]
            seen.update(b[i:i + 8] for i in range(0, len(b), 8))
        evidence = dict(property=cid, tier=tier, seed=seed, level="exploration",
                        coverage=dict(evaluations=ev, distinct_nontrivial=len(seen), rule=check.rule,
                                      samples=samples[:8], enumerated=enum,
                                      distribution=dict(sorted(labels.items())),
                                      shards=[dict(variant=s["variant"], seq=E.Recorder.seq_of(s["args"]["case_file"]))
                                              for s in shards]),
                        assumptions=getattr(check, "assumptions", []),
                        wall_s=round(time.time() - t0, 2), violations=violations)
        if notes:
            evidence["coverage"]["notes"] = notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", cid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.rename(path + ".tmp", path)
        print("%s %s: %d cases (%d enumerated), %d distinct non-trivial, %d violation(s), %.1fs" %
              (cid, tier, ev, enum, len(seen), violations, time.time() - t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def asan_summary(text):
    lines = text.splitlines()
    out = []
    for i, l in enumerate(lines):
        if "ERROR: AddressSanitizer" in l:
            out = lines[i:i + 14]
            break
    return "\n".join(out) if out else "\n".join(lines[-8:])


if __name__ == "__main__":
    main()
