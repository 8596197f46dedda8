"""C20: operations of several threads take effect as a whole.

Family "states": threads move one container between a few known contents
(reverse, sort, whole assignment) while others take snapshots: each snapshot
has to be one of these contents.  Family "bag": threads add unique elements
and take elements out: none may be lost, doubled or invented."""
import os
import random
import sys
import threading
import time

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import CLASSES, Invalid, Violation

SWAPS = ("reverse", "sort", "sortr", "assign", "mul1", "setsame", "delnone", "sortn")
READS = ("to_list", "copy", "slice", "build", "extend", "count", "in", "index", "len", "eq", "iter", "rslice", "add", "peek")
BAGS = ("append", "insert0", "insertm", "extend", "pop", "pop0", "popm", "delslice", "iadd", "reverse", "sort", "readdup", "setslice")


def spread(rnd, n, few):
    if few:
        return [rnd.randrange(-3, 4) for _ in range(n)]
    out = [7 * i - 3 * n for i in range(n)]
    rnd.shuffle(out)
    return out


@st.composite
def states(draw):
    cls = draw(gen.sampled(tuple(CLASSES)))
    n = draw(gen.sampled((3, 40, 3000, 30000, 60000) if cls[-2] == "L" else (3, 40, 3000, 30000, 100000, 200000, 300000)))
    return {"fam": "states", "cls": cls, "n": n, "seed": draw(st.integers(0, 2**20)), "few": draw(gen.sampled((0, 0, 1))),
            "rounds": draw(gen.sampled((3, 6, 12))), "sub": draw(gen.sampled((0, 0, 0, 1))),
            "mut": draw(st.lists(st.lists(gen.sampled(SWAPS[:2] * 3 + SWAPS), min_size=1, max_size=4), min_size=1, max_size=2)),
            "read": draw(st.lists(st.lists(gen.sampled(READS[:3] * 3 + READS), min_size=1, max_size=4), min_size=1, max_size=2))}


@st.composite
def bags(draw):
    return {"fam": "bag", "cls": draw(gen.sampled(tuple(CLASSES))), "n": draw(gen.sampled((0, 0, 2, 50, 2000))), "seed": draw(st.integers(0, 2**20)),
            "rounds": draw(gen.sampled((30, 100, 300))),
            "threads": draw(st.lists(st.lists(gen.sampled(BAGS[:9] * 2 + BAGS), min_size=1, max_size=5), min_size=2, max_size=4))}


class Team:
    """Starts functions together in threads, collects what they raise."""

    def __init__(self, fs):
        self.gate = threading.Barrier(len(fs))
        self.errors = []
        self.ts = [threading.Thread(target=self.go, args=(f,), daemon=True) for f in fs]

    def go(self, f):
        try:
            self.gate.wait()
            f()
        except Exception as e:
            self.errors.append(e)

    def run(self):
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            for t in self.ts:
                t.start()
            for t in self.ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        for e in self.errors:
            if isinstance(e, Violation):
                raise e
        if self.errors:
            raise Violation("a thread got %r" % (self.errors[0],))


class C20:
    id = "C20"
    per_round = 100

    def strategy(self, tier):
        return st.one_of(states(), states(), bags())

    def enumerated(self, tier):
        for cls in CLASSES:
            big = 30000 if cls[-2] == "L" else 100000
            for m in SWAPS:
                for r in ("to_list", "copy", "slice", "build", "extend", "iter", "peek"):
                    yield {"fam": "states", "cls": cls, "n": big, "seed": 1, "few": 0, "sub": 0, "rounds": 3, "mut": [[m, "reverse"]], "read": [[r]]}
            for a in BAGS:
                yield {"fam": "bag", "cls": cls, "n": 50, "seed": 2, "rounds": 100, "threads": [[a, "append"], ["append", "pop"], ["pop0", "extend"]]}

    def run(self, case, ctx):
        getattr(self, case["fam"])(case, ctx)
        if ctx.replay:
            # a race: a replay repeats the case
            end = time.monotonic() + (3 if os.environ.get("PFU_SHRINKING") else 15)
            n = 1
            while n < 30 or time.monotonic() < end:
                getattr(self, case["fam"])(case, ctx)
                n += 1

    def states(self, case, ctx):
        rnd = random.Random(case["seed"])
        cls = CLASSES[case["cls"]]
        n = case["n"]
        if not 0 <= n <= 300000 or not case["mut"] or not case["read"]:
            raise Invalid("n")
        a = spread(rnd, n, case["few"])
        want = [a, a[::-1], sorted(a), sorted(a, reverse=True)]
        # contents are told apart by three elements; then compared in full
        x = (type("Sub", (cls,), {}) if case["sub"] else cls)(a)
        done = []
        seen = set()
        pieces = {v: a.count(v) for v in a[:2]}
        pos = {v: {w.index(v) for w in want} for v in a[:2]}

        def check(got, what):
            for k, w in enumerate(want):
                if got == w:
                    seen.add(k)
                    return
            bad = [k for k in range(min(len(got), n)) if got[k] not in (w[k] for w in want)]
            raise Violation("%s of %s with %d elements while another thread runs %s: none of the contents it ever has (length %d, first "
                            "foreign element at %s, same elements: %s)" % (what, case["cls"], n, case["mut"], len(got), bad[:3], sorted(got) == want[2]))

        def mutator(ops):
            def f():
                try:
                    for k in range(case["rounds"]):
                        op = ops[k % len(ops)]
                        if op == "reverse":
                            x.reverse()
                        elif op == "sort":
                            x.sort()
                        elif op == "sortr":
                            x.sort(reverse=True)
                        elif op == "sortn":
                            x.sort(key=None, reverse=False)
                        elif op == "assign":
                            x[:] = a
                        elif op == "mul1":
                            x.__imul__(1)
                        elif op == "setsame":
                            x[0:n] = want[3]
                        elif op == "delnone":
                            del x[n:]
                        else:
                            raise Invalid(op)
                finally:
                    done.append(1)
            return f

        def reader(ops):
            def f():
                k = 0
                while len(done) < len(case["mut"]) or k < len(ops):
                    op = ops[k % len(ops)]
                    k += 1
                    if op == "to_list":
                        check(x.to_list(), op)
                    elif op == "copy":
                        y = x.copy()
                        check(y.to_list(), op)
                    elif op == "slice":
                        check(list(x[:]), op)
                    elif op == "rslice":
                        check(list(x[::-1]), op)
                    elif op == "build":
                        check(cls(x).to_list(), op)
                    elif op == "extend":
                        y = cls()
                        y.extend(x)
                        check(y.to_list(), op)
                    elif op == "add":
                        check((cls() + cls(x)).to_list(), op)
                    elif op == "len":
                        if len(x) != n:
                            raise Violation("len is %d, not %d, while another thread runs %s" % (len(x), n, case["mut"]))
                    elif op == "eq":
                        if not (x == x) or x != x:
                            raise Violation("not equal to itself while another thread runs %s" % case["mut"])
                    elif op == "iter":
                        check(list(x), op)
                    elif op == "peek":
                        for i in range(0, n, 1 + n // 100):
                            if x[i] not in (w[i] for w in want):
                                raise Violation("[%d] is %r while another thread runs %s: never an element there" % (i, x[i], case["mut"]))
                    elif n:
                        v = a[k % 2 % n]
                        if op == "count":
                            got = x.count(v)
                            if got != pieces[v]:
                                raise Violation("count(%d) is %d, not %d, while another thread runs %s" % (v, got, pieces[v], case["mut"]))
                        elif op == "in":
                            if v not in x:
                                raise Violation("%d is not in the list while another thread runs %s" % (v, case["mut"]))
                        elif op == "index":
                            got = x.index(v)
                            if got not in pos[v]:
                                raise Violation("index(%d) is %d while another thread runs %s: it is only ever at %s" % (v, got, case["mut"], pos[v]))
                        else:
                            raise Invalid(op)
            return f

        Team([mutator(o) for o in case["mut"]] + [reader(o) for o in case["read"]]).run()
        check(x.to_list(), "in the end to_list")
        ctx.label("states:" + case["cls"])
        ctx.label("snapshots saw %d contents" % len(seen))
        ctx.nt(len(seen) > 1)

    def bag(self, case, ctx):
        cls = CLASSES[case["cls"]]
        n = case["n"]
        if not 0 <= n <= 10000 or len(case["threads"]) > 8:
            raise Invalid("n")
        x = cls(range(-n, 0))
        added = [[] for _ in case["threads"]]
        taken = [[] for _ in case["threads"]]
        order = []

        def worker(tid, ops):
            base = (tid + 1) * 10**7

            def f():
                c = base
                put, got = added[tid], taken[tid]
                for k in range(case["rounds"]):
                    op = ops[k % len(ops)]
                    order.append(tid)
                    if op == "append":
                        x.append(c)
                        put.append(c)
                        c += 1
                    elif op == "insert0":
                        x.insert(0, c)
                        put.append(c)
                        c += 1
                    elif op == "insertm":
                        x.insert(len(x) // 2, c)
                        put.append(c)
                        c += 1
                    elif op in ("extend", "iadd", "setslice"):
                        new = list(range(c, c + 5))
                        if op == "extend":
                            x.extend(new)
                        elif op == "iadd":
                            x.__iadd__(new)
                        else:
                            x[1:1] = new
                        put += new
                        c += 5
                    elif op in ("pop", "pop0", "popm"):
                        try:
                            got.append(x.pop() if op == "pop" else x.pop(0) if op == "pop0" else x.pop(len(x) // 2))
                        except IndexError:
                            pass
                    elif op == "delslice":
                        # nobody can know what goes; so take nothing
                        del x[2:2]
                    elif op == "reverse":
                        x.reverse()
                    elif op == "sort":
                        x.sort()
                    elif op == "readdup":
                        got_now = x.to_list()
                        if len(set(got_now)) != len(got_now):
                            raise Violation("to_list shows elements twice in the middle of %s" % (case["threads"],))
                    else:
                        raise Invalid(op)
            return f

        Team([worker(t, o) for t, o in enumerate(case["threads"])]).run()
        left = x.to_list()
        everything = sorted(left + [v for t in taken for v in t])
        should = sorted(list(range(-n, 0)) + [v for t in added for v in t])
        if everything != should:
            lost = sorted(set(should) - set(everything))
            raise Violation("%s, %s: %d elements added, %d found at the end (lost %s, invented %s)" % (
                case["cls"], case["threads"], len(should), len(everything), lost[:5], sorted(set(everything) - set(should))[:5]))
        if len(x) != len(left) or list(x) != left:
            raise Violation("len, to_list and iteration disagree at the end")
        switches = sum(1 for p, q in zip(order, order[1:]) if p != q)
        ctx.label("bag:" + case["cls"])
        ctx.nt(switches >= 2)


CHECK = C20()
