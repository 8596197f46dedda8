"""C29: a program that uses the containers ends as one that uses lists does.

A case is a program: what it imports, makes, stores and drops, threads, forks and subinterpreters, and how it ends. It runs as a
process of its own, once with the containers and once with lists in their place."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from pbt import gen
from pbt.life_child import NAMES
from pbt.engine import Violation

HERE = os.path.dirname(os.path.abspath(__file__))
CHILD = os.path.join(os.path.dirname(HERE), "life_child.py")
SERVERS = {}
PLACES = ("global", "builtins", "sys", "module", "class", "modules", "type", "thread", "context", "frame", "method", "exception", "weak", "finalize")
ENDS = ("return", "return", "exit", "raise", "thread", "sleep", "hook", "hard")
MODULES = ("pyfastutil", "pyfastutil.ints", "pyfastutil.objects", "pyfastutil.unsafe")
DAEMON = 12

idx = st.integers(0, 5)
types = st.sampled_from(sorted(NAMES))
vals = st.lists(st.integers(0, 40), max_size=12)
ALL = tuple(sorted(NAMES))
OPS = {
    "make": (9, types, st.sampled_from((0, 0, 1, 2)), vals), "bare": (1, types, st.integers(0, 2)), "cycle": (4, idx, idx),
    "holder": (3, idx, st.integers(0, 3), idx), "iter": (2, idx, st.booleans(), st.integers(0, 14), st.booleans()), "view": (1, idx), "generator": (1, idx),
    "store": (6, idx, st.sampled_from(PLACES)), "atexit": (1, idx, st.integers(0, 4)),
    "daemon": (3, types, st.lists(st.integers(0, DAEMON - 1), min_size=1, max_size=3), st.sampled_from((1, 20, 500))),
    "drop": (3, idx), "gc": (2, st.sampled_from(("collect", "disable", "freeze", "enable"))), "use": (1, idx), "fork": (1, idx, st.booleans()),
    "import": (1, st.lists(st.sampled_from(MODULES), max_size=2)), "reimport": (1, st.integers(0, 1)), "reload": (1, st.sampled_from(MODULES)),
    "delmod": (1,), "sub": (1, types, st.booleans(), vals)}


@gen.cached
def op_strategy():
    return st.one_of([gen.cmd(name, *args) for name, (w, *args) in OPS.items() for _ in range(w)])


@st.composite
def cases(draw):
    ops = [["make", draw(types), draw(st.sampled_from((0, 0, 1, 2))), draw(vals)]] if draw(st.booleans()) else []
    ops += draw(st.lists(op_strategy(), min_size=1, max_size=14))
    if draw(st.integers(0, 3)) == 0:
        ops += draw(st.lists(gen.cmd("daemon", *OPS["daemon"][1:]), min_size=1, max_size=3))
    return {"ops": ops, "end": draw(st.sampled_from(ENDS)), "keep": draw(st.booleans())}


class C29:
    id = "C29"

    def strategy(self, tier):
        return cases()

    def enumerated(self, tier):
        for c in ALL:
            for k in range(DAEMON):
                yield {"ops": [["daemon", c, [k], 1]] * 3, "end": "sleep", "keep": False}
            for sub in (0, 1, 2):
                for p in PLACES:
                    for v in ([], [1, 4, 7, 2]):
                        yield {"ops": [["make", c, sub, v], ["store", 0, p], ["cycle", 0, 0], ["holder", 0, 1, 0]], "end": "return", "keep": p == "frame"}
            for end in sorted(set(ENDS)):
                for keep in (False, True):
                    yield {"ops": [["make", c, 0, [1, 2, 3]], ["iter", 0, False, 1, True], ["iter", 0, True, 9, False], ["view", 0], ["generator", 0],
                                   ["holder", 0, 2, 0], ["holder", 0, 3, 0], ["atexit", 0, 0], ["atexit", 0, 2], ["daemon", c, [0], 20]], "end": end, "keep": keep}
            yield {"ops": [["sub", c, True, [3, 1, 2]], ["make", c, 0, [1, 2, 3]], ["sub", c, False, [3, 1, 2]], ["fork", 0, True], ["use", 0]], "end": "return", "keep": True}
            for m in MODULES:
                yield {"ops": [["reload", m], ["make", c, 1, [1, 2, 3]], ["reload", m], ["reimport", 0], ["use", 0], ["make", c, 0, [5, 1, 2]], ["delmod"], ["use", 1],
                               ["reimport", 1], ["cycle", 0, 1]], "end": "return", "keep": True}

    def ask(self, mode, case):
        k = (os.getpid(), mode)
        if k not in SERVERS:
            SERVERS[k] = subprocess.Popen([sys.executable, CHILD], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                          env=dict(os.environ, PYTHONPATH=os.environ["PFU_PKG"]))
        p = SERVERS[k]
        p.stdin.write(json.dumps(dict(case, mode=mode)) + "\n")
        p.stdin.flush()
        status, events, err = json.loads(p.stdout.readline())
        return status, sorted(events.splitlines()), err

    def run(self, case, ctx):
        names = [op[0] for op in case["ops"]]
        threads = "daemon" in names
        want = self.ask("list", case)
        got = self.ask("cont", case)
        ctx.nt("make" in names or threads or "sub" in names)
        ctx.label("end: " + case["end"])
        for n in set(names):
            ctx.label("op: " + n)
        why = self.differs(want, got, threads)
        if why is None:
            return
        # daemon threads make a process end in one of several ways: what a list may do as well is no violation
        again = 6 if threads else 1
        bad = sum(self.differs(want, self.ask("cont", case), threads) is not None for _ in range(again))
        if not bad:
            ctx.label("not repeated")
            return
        if threads:
            for _ in range(15):
                if self.differs(want, self.ask("list", case), True) is not None:
                    ctx.label("lists differ too")
                    return
        raise Violation("the process %s (%d of %d more times)" % (why, bad, again))

    def differs(self, want, got, threads):
        if want[0] != got[0]:
            return "ended with wait status %d (%s), and with lists %d; %s" % (got[0], "signal %d" % (got[0] & 127) if got[0] & 127 else "exit", want[0], got[2][-600:])
        if want[1] != got[1]:
            a, b = list(want[1]), []
            for e in got[1]:
                if e in a:
                    a.remove(e)
                else:
                    b.append(e)
            return "missed the events %r and had %r" % (a[:6], b[:6])
        if bool(want[2].strip()) != bool(got[2].strip()):
            return "wrote %r to stderr, and with lists %r" % (got[2][-600:], want[2][-600:])
        return None


CHECK = C29()
