"""C23: no operation leaks memory."""
import ctypes
import gc
import sys

from hypothesis import strategies as st

from pbt import gen
from pbt.bad import bad, gen_bad
from pbt.cont import ALL_TYPES, ARRAYS, CLASSES, INTS, OBJS, SUBCLASSES, Boom, Obj, World
from pbt.engine import Invalid, Violation
from pbt.ops import step
from pyfastutil.unsafe import Unsafe


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_mallinfo2 = ctypes.CDLL(None).mallinfo2
_mallinfo2.restype = MallInfo

REPEAT = 24
LEAVES = ("i", "o", "p", "big", "lst")
CYCLES = ("self", "iter", "rev", "copyin", "wrap", "other", "dictself", "dictiter", "dictrev", "key", "exc", "gen", "view", "usediter", "slice")
SUBS = tuple(SUBCLASSES.values())


class Mutable:
    """Comparisons that end in an exception, or modify the container."""
    __slots__ = ("plan", "who", "__weakref__")
    __hash__ = None

    def __init__(self, who, plan):
        self.who = who
        self.plan = plan

    def act(self):
        p = self.plan
        if p == "boom":
            raise Boom("compare")
        if self.who:
            c = self.who[0]
            if p == "append":
                c.append(Obj(7))
            elif p == "clear":
                c.clear()
            elif p == "pop" and len(c):
                c.pop()

    def __eq__(self, other):
        self.act()
        return False

    def __lt__(self, other):
        self.act()
        return False

    def __repr__(self):
        self.act()
        return "Mutable"


PLANS = ("boom", "append", "clear", "pop", "none")


@gen.cached
def ops(cls, n, vals, max_ops):
    op = gen.pick(gen.op_table(cls, n, vals), {k: 1 for k in (
        "append", "extend", "insert", "pop", "popi", "remove", "clear", "reverse", "sort", "setitem", "delitem", "setslice", "setslicex",
        "delslice", "delslicex", "iadd", "imul", "resize", "index", "count", "in", "getitem", "getslice", "repr", "to_list", "copy", "iter",
        "reversed", "mul", "add", "bool", "len")})
    b = gen_bad(cls, n, vals)
    extra = [op, op, op, op, b, b,
             gen.cmd("cycle", st.sampled_from(CYCLES)),
             gen.cmd("iter_part", st.booleans(), st.integers(0, 4), st.booleans()),
             gen.cmd("reinit", st.sampled_from(["list", "empty", "same", "self", "bad", "size", "kw"])),
             gen.cmd("range", st.integers(-3, 40), st.integers(-3, 40), st.sampled_from([-3, -1, 0, 1, 2, 1.5, None])),
             gen.cmd("compare", st.sampled_from(["same", "list", "fewer", "other", "int", "boom"])),
             gen.cmd("ctor", st.sampled_from(["kw", "two", "size", "none", "str", "sub"])),
             gen.cmd("observe", st.sampled_from(["sizeof", "getattr", "setattr", "hash", "dir", "contains", "bytes", "str"]))]
    if cls in ("IAL", "BIAL"):
        extra += [gen.cmd("view", st.sampled_from(["mv", "mvslice", "held", "bytes", "cast", "two", "release", "growerr"])),
                  gen.cmd("view", st.sampled_from(["mv", "mvslice", "held", "bytes", "cast", "two", "release", "growerr"]))]
    if cls in OBJS:
        extra += [gen.cmd("mutable", st.sampled_from(PLANS), st.sampled_from(["index", "count", "in", "remove", "sort", "eq", "lt", "repr"]), st.integers(0, 6))] * 2
    return st.lists(st.one_of(extra), min_size=1, max_size=max_ops)


UNSAFE = ("blocks", "realloc", "aligned", "setget", "refs", "errors", "newobj", "text", "call")


@st.composite
def cases(draw, max_ops):
    if draw(st.integers(0, 11)) == 0:
        return {"unsafe": draw(st.lists(st.tuples(st.sampled_from(UNSAFE), st.integers(0, 5000), st.integers(0, 9)).map(list), min_size=1, max_size=6))}
    pools = st.lists(st.one_of(st.builds(lambda n: ["o", n], st.integers(0, 3)), st.just(["p"]), st.just(["rz"]), st.just(["nb", 1]), st.just(["i", 10**20]),
                               st.builds(lambda n: ["l", [n]], gen.small)), min_size=1, max_size=6)
    case, n, vals = draw(gen.worlds(max_n=130, pool_strategy=pools, large=5000))
    case["ops"] = draw(ops(case["cls"], n, vals, max_ops))
    return case


class C23:
    id = "C23"
    per_round = 150

    def __init__(self):
        self.warm = False

    def strategy(self, tier):
        return cases(6)

    def enumerated(self, tier):
        for cls in CLASSES:
            for sub in (0, 1):
                base = {"cls": cls, "init": [1, 2, 3, 1], "sub": sub}
                if cls in OBJS:
                    base["pool"] = [["o", 1], ["o", 2], ["p"], ["i", 10**30]]
                for c in CYCLES:
                    yield dict(base, ops=[["cycle", c]])
                    yield dict(base, ops=[["cycle", c], ["cycle", c], ["reverse"]])
                for h in gen.HOWS:
                    yield dict(base, how=h, ops=[["copy"]])
                one = [["append", 1], ["pop"], ["popi", 1], ["popi", 9], ["remove", 1], ["clear"], ["reverse"], ["sort", {"r": True, "k": "str"}],
                       ["sort", {"r": None, "k": None}], ["setitem", 0, 3], ["delitem", 1], ["setslice", [0, 2, None], ["list", [1]]],
                       ["setslice", [0, 2, None], ["gen", [1]]], ["setslice", [0, 2, None], ["self"]], ["setslice", [None, None, 2], ["list", [1, 2]]],
                       ["delslice", [None, None, 2]], ["delslice", [0, 2, None]], ["iadd", ["same", [1]]], ["iadd", ["gen", [1, 2]]], ["iadd", ["self"]],
                       ["imul", 3], ["imul", 0], ["index", 1], ["count", 1], ["in", 1], ["getitem", 0], ["getslice", [None, None, -1]], ["getslice", [0, 2, None]],
                       ["repr"], ["to_list"], ["copy"], ["iter"], ["reversed"], ["mul", 3], ["mul", 0], ["add", ["list", [1]]], ["add", ["same", [1]]],
                       ["extend", ["list", [1, 2]]], ["extend", ["gen", [1]]], ["extend", ["self"]], ["extend", ["tuple", [1]]], ["extend", ["hint0", [1]]],
                       ["range", 0, 10, 3], ["range", 5, 1, 0], ["range", 5, 1, 1.5], ["range", 0, 9, None]]
                one += [["iter_part", a, k, b] for a in (True, False) for k in (0, 2, 4) for b in (True, False)]
                one += [["reinit", k] for k in ("list", "empty", "same", "self", "bad", "size", "kw")]
                one += [["compare", k] for k in ("same", "list", "fewer", "other", "int", "boom")]
                one += [["ctor", k] for k in ("kw", "two", "size", "none", "str", "sub")]
                one += [["observe", k] for k in ("sizeof", "getattr", "setattr", "hash", "dir", "contains", "bytes", "str")]
                if cls in ARRAYS:
                    one += [["resize", k] for k in (0, 3, 100)]
                if cls in ("IAL", "BIAL"):
                    one += [["view", k] for k in ("mv", "mvslice", "held", "bytes", "cast", "two", "release", "growerr")]
                if cls in OBJS:
                    one += [["mutable", p, k, 1] for p in PLANS for k in ("index", "count", "in", "remove", "sort", "eq", "lt", "repr")]
                for o in one:
                    yield dict(base, ops=[o])
        for k in UNSAFE:
            for i in range(10):
                yield {"unsafe": [[k, 1000, i]]}

    # ---- one repetition
    def once(self, case, ctx):
        if "unsafe" in case:
            return self.unsafe(case["unsafe"])
        w = World(case)
        w.loose_sort = w.obj
        keep = []
        for op in case["ops"]:
            if len(w.model) > 1200 and op[0] not in ("clear", "pop"):
                continue
            name = op[0]
            if name == "bad":
                bad(w, op)
            elif name in ("cycle", "iter_part", "reinit", "range", "compare", "ctor", "observe", "view", "mutable"):
                try:
                    if getattr(self, name)(w, op, keep):
                        return      # views are alive: the content is fixed
                except Invalid:
                    raise
                except SystemError as e:
                    raise Violation("%s raised %r" % (op, e))
                except Exception:
                    pass
                w.model[:] = w.real.to_list()
                if any(isinstance(x, (Mutable,) + ALL_TYPES) for x in w.model):
                    return          # cyclic content: not for the list model
            else:
                step(w, op)

    def cycle(self, w, op, keep):
        k, r = op[1], w.real
        d = hasattr(r, "__dict__")
        if k.startswith("dict"):
            if not d:
                return
            r.x = r if k == "dictself" else iter(r) if k == "dictiter" else reversed(r)
            if k != "dictself":
                next(r.x, None)
            return
        if k == "view":
            if d and w.cls in ("IAL", "BIAL"):
                r.x = memoryview(r)
            return
        if k == "gen":
            if d:
                r.x = (a for a in r)
                next(r.x, None)
            return
        if not w.obj:
            return
        if k == "self":
            r.append(r)
        elif k == "iter":
            r.append(iter(r))
        elif k == "rev":
            r.insert(0, reversed(r))
        elif k == "usediter":
            it = iter(r)
            next(it, None)
            r.append(it)
        elif k == "copyin":
            c = r.copy()
            c.append(r)
            r.append(c)
        elif k == "wrap":
            r.append([(r, {1: r})])
        elif k == "other":
            o = CLASSES["OLL" if w.cls == "OAL" else "OAL"]([r])
            r.append(o)
            o.append(iter(o))
        elif k == "key":
            o = Obj(r)
            o.tag = r
            r.append(o)
        elif k == "exc":
            try:
                r.sort(key=lambda x: 1 // 0)
            except ZeroDivisionError as e:
                r.append(e)
        elif k == "slice":
            r.append(r)
            s = r[:]
            r[0:1] = [s, s]
        else:
            raise Invalid("cycle")

    def iter_part(self, w, op, keep):
        it = reversed(w.real) if op[1] else iter(w.real)
        for _ in range(op[2]):
            next(it, None)
        if op[3]:
            w.real.clear()
            next(it, None)
        if op[2] == 3:
            list(it)
        keep.append(it)

    def reinit(self, w, op, keep):
        r, k = w.real, op[1]
        if k == "list":
            r.__init__(list(w.model) + list(w.model))
        elif k == "empty":
            r.__init__()
        elif k == "same":
            r.__init__(w.make(w.model))
        elif k == "self":
            r.__init__(r)
        elif k == "bad":
            r.__init__(Obj(1))
        elif k == "size":
            r.__init__(50)
        elif k == "kw":
            r.__init__(nonsense=1)

    def range(self, w, op, keep):
        a = [x for x in op[1:] if x is not None]
        keep.append(w.type.from_range(*a))

    def compare(self, w, op, keep):
        k, r = op[1], w.real
        other = {"same": lambda: w.make(w.model), "list": lambda: list(w.model), "fewer": lambda: w.make(w.model[1:]),
                 "other": lambda: CLASSES["OLL"](w.model), "int": lambda: 5, "boom": lambda: [Mutable(None, "boom")] * len(w.model)}[k]()
        for f in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
            try:
                getattr(r, f)(other)
            except Boom:
                pass
            except TypeError:
                pass

    def ctor(self, w, op, keep):
        k, T = op[1], w.type
        if k == "kw":
            T(nonsense=[1])
        elif k == "two":
            T([], [])
        elif k == "size":
            keep.append(T(20))
        elif k == "none":
            T(None)
        elif k == "str":
            keep.append(T("abc"))
        else:
            keep.append(SUBCLASSES[w.cls](w.real))

    def observe(self, w, op, keep):
        k, r = op[1], w.real
        if k == "sizeof":
            sys.getsizeof(r)
        elif k == "getattr":
            r.append
            r.nothing
        elif k == "setattr":
            r.some_new_attribute = [1]
        elif k == "hash":
            hash(r)
        elif k == "dir":
            dir(r)
        elif k == "contains":
            "x" in r
        elif k == "bytes":
            bytes(r)
        else:
            str(r), format(r), "%r" % (r,)

    def view(self, w, op, keep):
        k, r = op[1], w.real
        if w.cls not in ("IAL", "BIAL"):
            return
        m = memoryview(r)
        if k == "mvslice":
            m[1:].tolist()
        elif k == "held":
            keep.append(m)
            keep.append(m[:1])
        elif k == "bytes":
            bytes(m), bytearray(r), b"".join([r])
        elif k == "cast":
            m.cast("B").tolist()
        elif k == "two":
            keep.append([m, memoryview(r), memoryview(m)])
        elif k == "release":
            m.release()
        elif k == "growerr":
            m.cast("B").cast("d", [3, 7])
        return k in ("held", "two")

    def mutable(self, w, op, keep):
        plan, where, at = op[1:4]
        r = w.real
        who = [r]
        x = Mutable(who, plan)
        r.insert(at, x)
        needle = Obj(99)
        try:
            if where == "index":
                r.index(needle)
            elif where == "count":
                r.count(needle)
            elif where == "in":
                needle in r
            elif where == "remove":
                r.remove(needle)
            elif where == "sort":
                r.sort()
            elif where == "eq":
                r == [needle] * len(r)
            elif where == "lt":
                r < [needle] * len(r)
            else:
                repr(r)
        finally:
            who.clear()

    def unsafe(self, todo):
        u = Unsafe()
        for k, n, i in todo:
            if not (isinstance(n, int) and 0 <= n <= 100000 and isinstance(i, int)):
                raise Invalid("unsafe")
            n = max(n, 8)
            if k == "blocks":
                a = [u.malloc(n), u.calloc(1, n), u.malloc(1)]
                for x in a:
                    u.free(x)
            elif k == "realloc":
                a = u.malloc(n)
                a = u.realloc(a, n * 2 + i)
                a = u.realloc(a, 8)
                u.free(a)
            elif k == "aligned":
                a = u.aligned_malloc(n, 1 << (3 + i))
                u.aligned_free(a)
            elif k == "setget":
                a = u.malloc(n)
                u.memset(a, 1, n)
                u.set(a, b"x" * (n // 2))
                u.get(a, n)
                u.get(a, 0)
                u.free(a)
            elif k == "refs":
                o = Obj(n)
                p = u.get_address(o)
                q = [u.as_object(p) for _ in range(i)]
                u.incref(o)
                u.refcnt(o)
                u.decref(o)
                del q
            elif k == "errors":
                for f in (lambda: u.malloc("x"), lambda: u.malloc(), lambda: u.malloc(2**70), lambda: u.malloc(-1), lambda: u.set(0, 5), lambda: u.get("x", 1),
                          lambda: u.memcpy(1), lambda: u.get_address(), lambda: u.incref(), lambda: u.calloc(2**63, 2**63), lambda: u.malloc(2**62),
                          lambda: u.realloc("x", 1), lambda: u.aligned_malloc("x", 1), lambda: u.aligned_malloc(8, 3), lambda: u.fputs(5), lambda: u.callVoid("x"),
                          lambda: u.nothing, lambda: Unsafe(1), lambda: u.memset(1.5, 1, 1)):
                    try:
                        f()
                    except SystemError as e:
                        raise Violation("unsafe errors: %r" % (e,))
                    except Exception:
                        pass
            elif k == "newobj":
                v = [Unsafe() for _ in range(5)]
                del v
            elif k == "text":
                u.fputs("")
                u.fflush()
            elif k == "call":
                a = u.malloc(64)
                for s in range(9):
                    try:
                        u.call(GETPID, a) if s == 0 else u.callInt(GETPID) if s & 1 else u.callLongLong(GETPID)
                    except TypeError:
                        pass
                u.callVoid(GETPID)
                u.free(a)
            else:
                raise Invalid("unsafe")

    # ---- measuring
    def measure(self):
        gc.collect()
        m = _mallinfo2()
        return [sys.getallocatedblocks(), m.uordblks + m.hblkhd] + [sys.getrefcount(t) for t in SUBS]

    def batch(self, case, ctx, n):
        for _ in range(n):
            self.once(case, ctx)

    def run(self, case, ctx):
        if not self.warm:
            gc.collect()
            gc.freeze()
            self.warm = True
        gc.disable()
        try:
            self.batch(case, ctx, 2)
            n = REPEAT
            names = ["Python memory blocks", "bytes of malloc"] + ["references to %s" % t.__name__ for t in SUBS]
            limit = [n - 2, 8 * n] + [n - 2] * len(SUBS)
            grown = None
            a = self.measure()
            for round in range(6):
                self.batch(case, ctx, n)
                b = self.measure()
                now = {i for i in range(len(a)) if b[i] - a[i] >= limit[i]}
                last = {i: b[i] - a[i] for i in now}
                grown = now if grown is None else grown & now
                if not grown:
                    break
                a = b
            if grown:
                raise Violation("; ".join("%d repetitions leave %d more %s" % (n, last[i], names[i]) for i in sorted(grown)))
        finally:
            gc.enable()
        ctx.label("unsafe" if "unsafe" in case else "class:" + case["cls"])
        for op in case.get("ops", []):
            ctx.label("op:" + (op[0] if op[0] != "bad" else "bad:" + op[1]))
        ctx.nt(True)


GETPID = ctypes.cast(ctypes.CDLL(None).getpid, ctypes.c_void_p).value
CHECK = C23()
