"""C26: an operation that runs out of memory raises and leaves everything usable."""
import gc
import importlib.util
import operator
import os
import sys
from array import array

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import ALL_TYPES, ARRAYS, CLASSES, OBJS, SUBCLASSES, World, mark
from pbt.engine import Invalid, Violation
from pbt.ops import as_int, need, sl, step

OOM = None
FLOATS = st.lists(st.builds(lambda n: ["f", str(n / 4)], gen.small), min_size=2, max_size=6)
LISTS = st.lists(st.builds(lambda n: ["l", [n]], gen.small), min_size=2, max_size=6)
MIXED = st.lists(st.one_of(st.builds(lambda n: ["l", [n]], gen.small), st.builds(lambda n: ["f", str(n / 4)], gen.small)), min_size=2, max_size=6)
KEYS = {"neg": operator.neg, "abs": abs, "str": str, "float": float, "id": operator.pos, "big": (10**30).__add__, "bool": bool, "tup": divmod, "okey": type,
        "oid": id}
SPREAD = 1021            # so that elements are no cached small ints
SRC = ("list", "tuple", "iter", "same", "IAL", "BIAL", "ILL", "OAL", "OLL", "sub", "dict", "listsub")
WEIGHTS = {"append": 3, "extend": 6, "insert": 3, "pop": 2, "popi": 2, "remove": 2, "clear": 1, "reverse": 1, "sort": 6, "setitem": 2, "delitem": 1,
           "setslice": 5, "setslicex": 2, "delslice": 2, "delslicex": 2, "iadd": 5, "imul": 4, "resize": 4, "index": 1, "count": 1, "in": 1, "getitem": 2,
           "getslice": 4, "repr": 2, "to_list": 2, "copy": 4, "iter": 2, "reversed": 2, "mul": 4, "add": 4}


def load():
    global OOM
    if OOM is None:
        path = os.environ["PFU_OOM"]
        spec = importlib.util.spec_from_file_location("oom", path)
        OOM = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(OOM)
        if not OOM.install():
            raise RuntimeError("the library under test was not found")
    return OOM


@gen.cached
def ops(cls, n, vals):
    op = gen.pick(gen.op_table(cls, n, vals), WEIGHTS)
    new = st.one_of(gen.cmd("ctor", gen.sources(cls, vals, max_size=9, kinds=SRC)), gen.cmd("size", st.integers(0, 300)),
                    gen.cmd("reinit", gen.sources(cls, vals, max_size=9, kinds=SRC)), gen.cmd("subclass"),
                    gen.cmd("compare", st.sampled_from(("eq", "ne", "lt", "le", "gt", "ge")), st.sampled_from(("same", "list", "OAL", "OLL", "sub"))),
                    gen.cmd("iterobj", st.booleans()), gen.cmd("view"),
                    gen.cmd("extend", gen.sources(cls, vals, max_size=20, kinds=SRC)), gen.cmd("iadd", gen.sources(cls, vals, max_size=20, kinds=SRC)))
    if cls not in OBJS:
        new = st.one_of(new, gen.cmd("from_range", st.integers(-5, 5).map(lambda x: 1000 * x), st.integers(-50, 50), st.sampled_from((1, 7, -1, -9, 100))))
    return st.one_of(op, op, new)


@st.composite
def cases(draw):
    case, n, vals = draw(gen.worlds(max_n=70, pool_strategy=st.one_of(FLOATS, LISTS, MIXED), large=2000))
    case["pre"] = draw(st.lists(gen.pick(gen.op_table(case["cls"], n, vals), {"append": 2, "extend": 2, "pop": 2, "clear": 1, "insert": 1, "imul": 1}), max_size=2))
    case["op"] = draw(ops(case["cls"], n, vals))
    case["len"] = draw(st.sampled_from([1, 1, 1, 2, 5, 1000]))
    return case


def src(w, spec):
    need(spec[0] in SRC or spec[0] == "self")       # no Python code
    return w.src(spec)


def thunk(w, op):
    """(function, arguments, keywords, what to check a result with, how the content may differ after a failure).

    No Python code must run while allocations fail: CPython itself gets that wrong (a frame that cannot be added to the
    traceback loses the exception)."""
    name = op[0]
    r = w.real
    rv = w.val
    m = w.model
    none = {}
    if name == "append":
        return r.append, (rv(op[1]),), none, "none", None
    if name == "extend":
        s, ms = src(w, op[1])
        return r.extend, (s,), none, "none", ("prefix", list(ms))
    if name == "iadd":
        s, ms = src(w, op[1])
        return operator.iadd, (r, s), none, "self", ("prefix", list(ms))
    if name == "insert":
        return r.insert, (as_int(op[1]), rv(op[2])), none, "none", None
    if name == "pop":
        return r.pop, (), none, "elem", None
    if name == "popi":
        return r.pop, (as_int(op[1]),), none, "elem", None
    if name == "remove":
        return r.remove, (rv(op[1]),), none, "none", None
    if name in ("clear", "reverse"):
        return getattr(r, sys.intern(name)), (), none, "none", None
    if name == "sort":
        kw = {}
        if op[1].get("r") is not None:
            kw["reverse"] = op[1]["r"]
        if op[1].get("k"):
            need(op[1]["k"] in KEYS)
            kw["key"] = KEYS[op[1]["k"]]
        return r.sort, (), kw, "none", ("permutation", None)
    if name == "setitem":
        return operator.setitem, (r, as_int(op[1]), rv(op[2])), none, "none", None
    if name == "delitem":
        return operator.delitem, (r, as_int(op[1])), none, "none", None
    if name == "setslice":
        s, ms = src(w, op[2])
        return operator.setitem, (r, sl(op[1]), s), none, "none", None
    if name == "delslice":
        return operator.delitem, (r, sl(op[1])), none, "none", None
    if name == "imul":
        k = as_int(op[1])
        need(k * len(m) <= 2000)
        return operator.imul, (r, k), none, "self", None
    if name == "resize":
        need(w.cls in ARRAYS)
        k = as_int(op[1])
        need(0 <= k <= 2000)
        return r.resize, (k,), none, "none", None
    if name == "index":
        return r.index, (rv(op[1]), *[as_int(x) for x in op[2:]]), none, "value", None
    if name == "count":
        return r.count, (rv(op[1]),), none, "value", None
    if name == "in":
        return operator.contains, (r, rv(op[1])), none, "value", None
    if name == "getitem":
        return operator.getitem, (r, as_int(op[1])), none, "elem", None
    if name == "getslice":
        return operator.getitem, (r, sl(op[1])), none, "list", None
    if name == "repr":
        need(not w.obj)     # CPython's own repr of nested lists leaves a reference when it fails
        return repr, (r,), none, "value", None
    if name == "to_list":
        return r.to_list, (), none, "list", None
    if name == "copy":
        return r.copy, (), none, "list", None
    if name == "iter":
        return list, (r,), none, "list", None
    if name == "reversed":
        return list, (reversed(r),), none, "list", None
    if name == "mul":
        k = as_int(op[1])
        need(k * len(m) <= 2000)
        return operator.mul, (r, k), none, "list", None
    if name == "add":
        s, ms = src(w, op[1])
        return operator.add, (r, s), none, "list", None
    if name == "ctor":
        s, ms = src(w, op[1])
        return w.type, (s,), none, "list", None
    if name == "reinit":
        s, ms = src(w, op[1])
        need(s is not r)
        return r.__init__, (s,), none, "none", ("any", None)
    if name == "subclass":
        return SUBCLASSES[w.cls], (list(m),), none, "list", None
    if name == "size":
        k = as_int(op[1])
        need(0 <= k <= 2000 and w.cls in ARRAYS)
        return CLASSES[w.cls], ([], k), none, "list", None
    if name == "from_range":
        a = [as_int(x) for x in op[1:]]
        need(len(a) == 3 and a[2] != 0 and len(range(*a)) <= 6000 and not w.obj)
        return CLASSES[w.cls].from_range, tuple(a), none, "list", None
    if name == "compare":
        need(op[1] in ("eq", "ne", "lt", "le", "gt", "ge"))
        y = w.source(op[2], list(m)) if op[2] != "same" else w.type(list(m))
        return getattr(operator, sys.intern(op[1])), (r, y), none, "value", None
    if name == "iterobj":
        return reversed if op[1] else iter, (r,), none, "iterator", None
    if name == "view":
        need(w.cls in ("IAL", "BIAL"))
        return memoryview, (r,), none, "view", None
    raise Invalid("op")


def expect(w, op):
    """The same on the model: ("ok", result) or ("exc", exception)."""
    name, m = op[0], w.model
    try:
        if name in ("ctor", "reinit"):
            s, ms = w.src(op[1])
            ms = list(ms)
            if name == "reinit":
                m[:] = ms
                return "ok", None
            return "ok", ms
        if name == "subclass":
            return "ok", list(m)
        if name == "size":
            return "ok", []
        if name == "from_range":
            return "ok", list(range(*op[1:]))
        if name == "compare":
            return "ok", getattr(operator, sys.intern(op[1]))(m, list(m))
        if name == "iterobj":
            return "ok", m[::-1] if op[1] else list(m)
        if name == "view":
            return "ok", list(m)
        if name == "append":
            return "ok", m.append(w.val(op[1]))
        if name in ("extend", "iadd"):
            s, ms = w.src(op[1])
            m += list(ms)
            return "ok", None
        if name == "insert":
            return "ok", m.insert(op[1], w.val(op[2]))
        if name == "pop":
            return "ok", m.pop()
        if name == "popi":
            return "ok", m.pop(op[1])
        if name == "remove":
            return "ok", m.remove(w.val(op[1]))
        if name in ("clear", "reverse"):
            return "ok", getattr(m, sys.intern(name))()
        if name == "sort":
            return "ok", m.sort(**thunk(w, op)[2])
        if name == "setitem":
            m[op[1]] = w.val(op[2])
            return "ok", None
        if name == "delitem":
            del m[op[1]]
            return "ok", None
        if name == "setslice":
            s, ms = w.src(op[2])
            m[sl(op[1])] = list(ms)
            return "ok", None
        if name == "delslice":
            del m[sl(op[1])]
            return "ok", None
        if name == "imul":
            m *= op[1]
            return "ok", None
        if name == "resize":
            k = op[1]
            m[k:] = []
            m += [None if w.obj else 0] * (k - len(m))
            return "ok", None
        if name == "index":
            return "ok", m.index(w.val(op[1]), *op[2:])
        if name == "count":
            return "ok", m.count(w.val(op[1]))
        if name == "in":
            return "ok", w.val(op[1]) in m
        if name == "getitem":
            return "ok", m[op[1]]
        if name == "getslice":
            return "ok", m[sl(op[1])]
        if name == "repr":
            return "ok", repr(m)
        if name in ("to_list", "copy", "iter"):
            return "ok", list(m)
        if name == "reversed":
            return "ok", m[::-1]
        if name == "mul":
            return "ok", m * op[1]
        if name == "add":
            return "ok", m + list(w.src(op[1])[1])
    except Exception as e:
        return "exc", e.with_traceback(None)
    raise Invalid("op")


class C26:
    id = "C26"
    per_round = 200

    def strategy(self, tier):
        return cases()

    def enumerated(self, tier):
        for cls in CLASSES:
            base = {"cls": cls}
            if cls in OBJS:
                base["pool"] = [["f", str(i % 3 / 4)] for i in range(6)]
                vals = lambda n, d=0: [(i + d) % 6 for i in range(n)]
            else:
                vals = lambda n, d=0: [(i * 37 + d) % 11 * SPREAD - 3000 for i in range(n)]
            for n in (0, 1, 3, 12):
                v = vals(1, 3)[0]
                todo = [["append", v], ["insert", 0, v], ["insert", n, v], ["pop"], ["clear"], ["reverse"], ["imul", 3], ["to_list"], ["copy"], ["repr"], ["iter"],
                        ["reversed"], ["mul", 2], ["subclass"], ["iterobj", False], ["iterobj", True], ["getslice", [None, None, -1]],
                        ["getslice", [0, 2, None]], ["delslice", [None, None, 2]], ["delslice", [0, 1, None]], ["popi", 0], ["delitem", 0], ["setitem", 0, v], ["getitem", -1],
                        ["in", v], ["index", v], ["count", v], ["remove", v]]
                todo += [["sort", {"r": r, "k": k}] for r in (None, True) for k in ((None, "neg", "str", "big", "tup") if cls not in OBJS else (None, "neg", "str", "tup"))]
                if cls in ARRAYS:
                    todo += [["resize", 40], ["size", 0], ["size", 50]]
                if cls in ("IAL", "BIAL"):
                    todo += [["view"]]
                if cls not in OBJS:
                    todo += [["from_range", 0, 30, 1], ["from_range", 30000, 0, -3001]]
                for k in SRC:
                    for c in (0, 1, 9):
                        s = [k, vals(c, 5)]
                        todo += [["extend", s], ["iadd", s], ["ctor", s], ["reinit", s], ["setslice", [0, 2, None], s]]
                        if k in ("list", "same"):
                            todo += [["add", s]]
                todo += [["extend", ["self"]], ["iadd", ["self"]], ["ctor", ["self"]], ["setslice", [0, 1, None], ["self"]], ["add", ["self"]]]
                todo += [["compare", c, k] for c in ("eq", "lt", "ge") for k in ("same", "list", "OAL", "OLL", "sub")]
                if cls in OBJS:
                    todo.remove(["repr"])
                for op in todo:
                    yield dict(base, init=vals(n), how="list", pre=[], op=op, len=1)
                    yield dict(base, init=vals(n), how="append", pre=[], op=op, len=1000)

    def run(self, case, ctx):
        oom = load()
        if not isinstance(case.get("len"), int) or not 1 <= case["len"]:
            raise Invalid("len")
        self.fired = 0
        gc.disable()
        gc.freeze()     # only what the case makes has to be looked at
        try:
            self.scans(case, ctx, oom)
        finally:
            gc.unfreeze()
            gc.enable()

    def scans(self, case, ctx, oom):
        self.scan(case, ctx, oom)
        if self.fired:
            # does it leak Python objects?
            gc.collect()
            counts = array('q', [sys.getallocatedblocks()])
            for _ in range(2):
                self.scan(case, None, oom)
                gc.collect()
                counts.append(sys.getallocatedblocks())
            if counts[0] < counts[1] < counts[2]:
                # the interpreter has caches of its own that fill up
                for _ in range(60):
                    self.scan(case, None, oom)
                counts = array('q')
                for _ in range(12):
                    self.scan(case, None, oom)
                    gc.collect()
                    counts.append(sys.getallocatedblocks())
                if all(a < b for a, b in zip(counts, counts[1:])):
                    raise Violation("%s on %s of %s elements, every point of failure: blocks in use grow with every repetition: %s" % (
                        case["op"], case["cls"], case["init"] if len(str(case["init"])) < 80 else "...", [b - counts[0] for b in counts]))
        ctx.nt(self.fired > 0)

    def scan(self, case, ctx, oom):
        k = 0
        points = 0
        while True:
            asked, failed, how = self.one(case, k, oom)
            if ctx is not None:
                ctx.label("op:%s" % case["op"][0])
                if failed:
                    ctx.label("failed")
                    ctx.label("raised " + how)
            if not failed:
                break
            self.fired += 1
            points += 1
            k += 1 if points < 25 else max(1, asked // 12)
            if points > 60:
                break

    def one(self, case, k, oom):
        c = dict(case, init=[])
        w = World(c)
        pool = w.pool
        count = sys.getrefcount
        base = [count(pool[i]) for i in range(len(pool))]
        w.model = w.values(case["init"])
        w.real = w.make(w.model, case.get("how", "list"))
        w.loose_sort = True
        for op in case["pre"]:
            step(w, op)
        what = "%s%s of %d elements, allocations from number %d on fail (%d of them): %s" % (
            "Sub" if case.get("sub") else "", w.cls, len(w.model), k, case["len"], case["op"])
        old = list(w.model)
        f, args, kw, res, partial = thunk(w, case["op"])
        r = w.real
        kind, value, asked, failed = oom.run(f, args, kw, k, k + case["len"])
        f = args = kw = None
        if kind in ("nothing", "both"):
            raise Violation("%s: %s" % (what, "no result and no exception" if kind == "nothing" else "a result and an exception"))
        how = ""
        if kind == "exc":
            how = type(value).__name__
            if not isinstance(value, Exception) or isinstance(value, SystemError):
                raise Violation("%s raised %r" % (what, value))
            value.with_traceback(None)
        got = w.real.to_list()
        a, b = expect(w, case["op"])
        if kind == "ok":
            if a == "exc":
                raise Violation("%s gave %r where a list raises %r" % (what, value, b))
            if case["op"][0] == "sort" and w.obj:
                if sorted(map(mark, got)) != sorted(map(mark, w.model)):
                    raise Violation("%s left %s" % (what, w.show(got)))
                w.model[:] = got
            elif not w.eql(got, w.model):
                raise Violation("%s left %s, a list would hold %s" % (what, w.show(got), w.show(w.model)))
            self.result(w, what, res, value, b)
        else:
            ok = w.eql(got, old)
            if not ok and partial is not None:
                if partial[0] == "any":
                    ok = True
                elif partial[0] == "permutation":
                    ok = sorted(map(mark, got)) == sorted(map(mark, old))
                else:
                    ok = any(w.eql(got, old + partial[1][:i]) for i in range(len(partial[1]) + 1))
            if not ok:
                raise Violation("%s raised %r and left %s instead of %s" % (what, value, w.show(got), w.show(old)))
            if not failed and a == "ok":
                refused = isinstance(value, (TypeError, NotImplementedError, OverflowError))
                if not refused:
                    raise Violation("%s raised %r, a list gives %r" % (what, value, b))
            w.model[:] = got
        a = b = value = None
        got = old = partial = None
        # it has to work as before
        w.check_state(what)
        if w.obj:
            ids = {}
            for x in w.model:
                ids[id(x)] = ids.get(id(x), 0) + 2
            x = None
            for i in range(len(pool)):
                have, want = count(pool[i]), base[i] + ids.get(id(pool[i]), 0)
                if have != want:
                    raise Violation("%s: element %d has %+d references" % (what, i, have - want))
        if w.model:
            v = w.model[0]
            r.append(v)
            w.model.append(v)
            r.insert(0, v)
            w.model.insert(0, v)
            w.check_state(what + ", then append and insert", full=False)
        v = None
        r = w.real = None
        w.model.clear()
        left = oom.live()
        if left:
            raise Violation("%s: %d blocks are never freed" % (what, left))
        for i in range(len(pool)):
            if count(pool[i]) != base[i]:
                raise Violation("%s: element %d has %+d references after everything was dropped" % (what, i, count(pool[i]) - base[i]))
        return asked, failed, how

    @staticmethod
    def result(w, what, res, x, y):
        if res == "none":
            ok = x is None
        elif res == "self":
            ok = x is w.real
        elif res == "elem":
            ok = w.eqv(x, y)
        elif res == "value":
            ok = type(x) is type(y) and x == y
        elif res == "list":
            if isinstance(x, ALL_TYPES):
                x = x.to_list()
            ok = w.eql(x, y)
        elif res == "iterator":
            ok = w.eql(list(x), y)
        else:
            ok = x.tolist() == y
        if not ok:
            raise Violation("%s gave %s, a list gives %s" % (what, w.show(x), w.show(y)))


CHECK = C26()
