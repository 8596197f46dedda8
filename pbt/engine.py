"""Worker side: generates cases with Hypothesis, runs them, shrinks failures.

A check is an object with
    id, rule                 text
    quick, thorough          number of generated cases per shard
    variants                 list of (build variant, share of the shards)
    strategy(tier)           Hypothesis strategy for a JSON-able case
    enumerated(tier)         iterable of JSON-able cases (may be empty)
    run(case, ctx)           raises Violation when the property is broken
"""
import hashlib
import importlib
import json
import mmap
import os
import resource
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))

EXIT_VIOLATION = 3
EXIT_INVALID = 5


class Violation(Exception):
    pass


class Invalid(Exception):
    """The case is not a case of this check (only shrinking produces those)."""


class Ctx:
    def __init__(self, variant="plain"):
        self.variant = variant
        self.labels = {}
        self.nontrivial = False
        self.replay = False

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Recorder:
    """The case being run, in a file that survives a crash of the process."""
    SIZE = 8 << 20

    def __init__(self, path):
        fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
        os.ftruncate(fd, self.SIZE)
        self.mm = mmap.mmap(fd, self.SIZE)
        os.close(fd)
        self.seq = 0

    def record(self, data):
        self.seq += 1
        if len(data) + 16 > self.SIZE:
            data = b""
        self.mm[0:16] = struct.pack("<QQ", self.seq, len(data))
        self.mm[16:16 + len(data)] = data

    @staticmethod
    def read(path):
        try:
            with open(path, "rb") as f:
                seq, n = struct.unpack("<QQ", f.read(16))
                data = f.read(n)
            return seq, (json.loads(data) if data else None)
        except Exception:
            return 0, None

    @staticmethod
    def seq_of(path):
        try:
            with open(path, "rb") as f:
                return struct.unpack("<Q", f.read(8))[0]
        except Exception:
            return 0


def load(check_id):
    mod = importlib.import_module("pbt.checks." + check_id.lower())
    return mod.CHECK


def dumps(case):
    return json.dumps(case, separators=(",", ":"), sort_keys=True)


def run_case(check, case, ctx):
    """Runs one case; any exception the check did not foresee is a bug of the
    check on an invalid (shrunk) case, but a violation on a generated one."""
    check.run(case, ctx)


class Session:
    def __init__(self, check, args):
        self.check = check
        self.a = args
        self.rec = Recorder(args["case_file"])
        self.evaluations = 0
        self.enumerated = 0
        self.seen = set()
        self.labels = {}
        self.samples = []
        self.last_fail = None
        self.t0 = time.time()

    def one(self, case):
        data = dumps(case).encode()
        self.rec.record(data)
        ctx = Ctx(self.a["variant"])
        try:
            self.check.run(case, ctx)
        except Violation as e:
            self.last_fail = (case, str(e))
            raise
        except Invalid:
            self.labels["invalid"] = self.labels.get("invalid", 0) + 1
            return
        except Exception as e:
            # the interpreter of cases has to be total: an unexpected
            # exception means that the library raised where it never may
            self.last_fail = (case, "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            raise
        self.evaluations += 1
        for k, v in ctx.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        if ctx.nontrivial:
            h = hashlib.blake2b(data, digest_size=8).digest()
            if h not in self.seen:
                self.seen.add(h)
                if len(data) < 1500 and (len(self.samples) < 2 or (len(self.samples) < 6 and self.evaluations % 97 == 0)):
                    self.samples.append(json.loads(data))

    def over(self):
        return time.time() - self.t0 > self.a["cap_s"]

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 20
        a = self.a
        tier = a["tier"]
        status = "ok"
        try:
            for i, case in enumerate(self.check.enumerated(tier)):
                if i % a["nshards"] != a["shard"]:
                    continue
                if self.over():
                    break
                self.one(case)
                self.enumerated += 1
            todo = a["count"]
            rnd = 0
            per_round = getattr(self.check, "per_round", 400)
            while todo > 0 and not self.over():
                n = min(per_round, todo)
                todo -= n
                strat = self.check.strategy(tier)

                def test(case):
                    self.one(case)

                wrapped = hypothesis.seed(hash_int(a["seed"], a["shard"], rnd, self.check.id))(
                    settings(max_examples=n, database=None, deadline=None, derandomize=False,
                             report_multiple_bugs=False, print_blob=False,
                             suppress_health_check=list(HealthCheck),
                             phases=[Phase.generate, Phase.target, Phase.shrink])(given(strat)(test)))
                wrapped()
                rnd += 1
        except BaseException as e:
            if self.last_fail is None:
                traceback.print_exc()
                status = "error: %r" % (e,)
            else:
                status = "violation"
        out = dict(status=status, evaluations=self.evaluations, enumerated=self.enumerated,
                   labels=self.labels, samples=self.samples, wall=time.time() - self.t0)
        if self.last_fail:
            out["case"], out["msg"] = self.last_fail
        with open(a["out_file"] + ".tmp", "w") as f:
            json.dump(out, f)
        with open(a["out_file"] + ".seen", "wb") as f:
            f.write(b"".join(sorted(self.seen)))
        os.rename(a["out_file"] + ".tmp", a["out_file"])
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit({"ok": 0, "violation": EXIT_VIOLATION}.get(status, 4))


def hash_int(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "little")


def replay(check, case, variant):
    ctx = Ctx(variant)
    ctx.replay = True
    try:
        check.run(case, ctx)
    except Violation as e:
        print("VIOLATED: %s" % e)
        return EXIT_VIOLATION
    except Invalid as e:
        print("INVALID: %s" % e)
        return EXIT_INVALID
    except Exception as e:
        traceback.print_exc()
        return EXIT_INVALID if getattr(check, "strict_shrink", True) and os.environ.get("PFU_SHRINKING") else EXIT_VIOLATION
    print("HELD")
    return 0


def fork_server(check, variant):
    """stdin: one case per line; stdout: exit status of a forked run of it."""
    import select
    import signal
    for line in sys.stdin:
        pid = os.fork()
        if pid == 0:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            try:
                rc = replay(check, json.loads(line), variant)
            except BaseException:
                rc = EXIT_INVALID
            os._exit(rc)
        t_end = time.time() + 20
        status = None
        while time.time() < t_end:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status = os.waitstatus_to_exitcode(st)
                break
            time.sleep(0.002)
        if status is None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            status = "hang"
        sys.stdout.write("%s\n" % status)
        sys.stdout.flush()


def main():
    sys.setrecursionlimit(1000)
    args = json.loads(sys.argv[1])
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    check = load(args["check"])
    if args["variant"] != "asan" and not getattr(check, "unlimited", False):
        lim = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    mode = args["mode"]
    if mode == "run":
        Session(check, args).run()
    elif mode == "replay":
        with open(args["replay_file"]) as f:
            case = json.load(f)["case"]
        sys.exit(replay(check, case, args["variant"]))
    elif mode == "fork":
        fork_server(check, args["variant"])


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(HERE))
    # the checks import "pbt.engine"; make sure that is this very module
    import pbt.engine
    pbt.engine.main()
