"""C30: sizes and positions beyond 2^31 and 2^32.

The allocator preloaded here (pbt/native/huge.cpp) gives large blocks the same 12 MB over and over.  The model of a container is
therefore its length, the value of all its elements, and the exceptions by place in the period; positions 2^31 or 2^32 apart are
different places.
"""
import ctypes
import functools
import itertools
import operator
import os

from hypothesis import strategies as st

from pbt.cont import CLASSES
from pbt.engine import Invalid, Violation

PERIOD = 12 << 20
ROOM = 4096
WIDTH = {"IAL": 4, "BIAL": 8, "OAL": 8}
G31, G32 = 2**31, 2**32
HUGE_INTS = (2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33, 2**40, 2**62, 2**63 - 1)
OPS = {"lt": operator.lt, "le": operator.le, "eq": operator.eq, "ne": operator.ne, "gt": operator.gt, "ge": operator.ge}


class Model:
    def __init__(self, cls):
        self.p = PERIOD // WIDTH[cls]
        self.n = 0
        self.base = None if cls == "OAL" else 0
        self.ex = {}

    def get(self, i):
        return self.ex.get(i % self.p, self.base)

    def set(self, i, v):
        if same(v, self.base):
            self.ex.pop(i % self.p, None)
        else:
            self.ex[i % self.p] = v

    def write(self, i, values):
        for k, v in enumerate(values):
            self.set(i + k, v)

    def read(self, a, b, step=1):
        return [self.get(i) for i in range(a, b, step)]

    def uniform(self):
        return not self.ex

    def copy(self):
        m = Model.__new__(Model)
        m.p, m.n, m.base, m.ex = self.p, self.n, self.base, dict(self.ex)
        return m

    def find(self, v, a, b):
        """The first position in [a, b) that holds v."""
        if a >= b:
            return None
        if same(v, self.base):
            for i in range(a, min(b, a + self.p)):
                if same(self.get(i), v):
                    return i
                if i - a > 100000:
                    raise Invalid("too many exceptions")
            return None
        best = None
        for r, x in self.ex.items():
            if same(x, v):
                i = a + (r - a) % self.p
                if i < b and (best is None or i < best):
                    best = i
        return best

    def count(self, v):
        total = sum((self.n - r + self.p - 1) // self.p for r, x in self.ex.items() if same(x, v) and r < self.n)
        if same(v, self.base):
            total += self.n - sum((self.n - r + self.p - 1) // self.p for r in self.ex if r < self.n)
        return total


def same(a, b):
    return a is b or type(a) is type(b) and a == b


def where(n, w):
    """A position: ["end", k], ["low", k], ["at", power, k]."""
    if w[0] == "end":
        i = n - 1 - w[1]
    elif w[0] == "low":
        i = w[1]
    elif w[0] == "at":
        i = 2**w[1] + w[2]
        if i >= n:
            i = n - 1 - abs(w[2])
    else:
        raise Invalid("position")
    if not 0 <= i < n:
        raise Invalid("position")
    return i


def available():
    with open("/proc/meminfo") as f:
        return next(int(s.split()[1]) >> 20 for s in f if s.startswith("MemAvailable"))


def huge(yes):
    ctypes.CDLL(os.environ["PFU_HUGE"]).pfu_huge(yes)


def made():
    return ctypes.CDLL(os.environ["PFU_HUGE"]).pfu_huge_made()


@functools.cache
def able():
    """Whether blocks can be huge here."""
    lib = ctypes.CDLL(os.environ["PFU_HUGE"])
    lib.malloc.restype = ctypes.c_void_p
    ps = [lib.malloc(ctypes.c_size_t(34 << 30)) for i in range(2)]
    for p in ps:
        lib.free(ctypes.c_void_p(p))
    return None not in ps


def exact(what, f, e):
    try:
        r = f()
    except e:
        return
    except Exception as x:
        raise Violation("%s raised %r, a list %s" % (what, x, e.__name__))
    raise Violation("%s gave %r, a list raises %s" % (what, r, e.__name__))


small = st.integers(0, 40)
pos = st.one_of(st.tuples(st.just("end"), small), st.tuples(st.just("end"), small), st.tuples(st.just("at"), st.just(31), st.integers(-20, 20)),
                st.tuples(st.just("at"), st.sampled_from([31, 32, 30, 29, 33]), st.integers(-20, 20)), st.tuples(st.just("low"), small)).map(list)
tail = st.tuples(st.just("end"), small).map(list)
val = st.integers(1, 100)
vals = st.lists(val, max_size=12)


# left out of the quick tier
SLOW = {("IAL", u) for u in ("addempty", "fullslice")} | {(c, u) for c in ("BIAL", "OAL") for u in (
    "copy", "ctor", "to_list", "fullslice", "count", "in", "cmp", "imul2", "mul2", "addempty", "addself", "iaddself", "regrow")} - {("BIAL", "count"), ("BIAL", "in")}


def s(name, *args):
    return st.tuples(st.just(name), *args).map(list)


neg = st.booleans()
CHEAP = [s("get", pos, neg), s("set", pos, neg, val), s("set", pos, neg, val), s("append", val), s("extend", vals), s("iadd", vals), s("insert", tail, neg, val),
         s("insertfar", st.sampled_from(HUGE_INTS), val), s("pop"), s("popi", tail, neg), s("del", tail, neg),
         s("slice", pos, st.integers(0, 30), neg), s("slicestep", st.sampled_from([2**27, 2**28 + 1, 2**29, 2**30, 2**31, 2**32, 2**40, 2**63 - 1, -2**28, -2**30,
                                                                                     -2**31 - 1, -2**32, -2**63])),
         s("setslice", tail, st.integers(0, 12), vals), s("delslice", tail, st.integers(0, 12)), s("delsteps", tail, st.integers(2, 5)),
         s("range", st.integers(0, 3), neg), s("resize", st.integers(-30, 30)), s("setpos", pos, val), s("len"),
         s("index", pos, st.integers(0, 50), val), s("reversed", st.integers(1, 40)), s("mv", pos, st.integers(0, 20)), s("iter", st.integers(1, 20)),
         s("truth"), s("remove", tail), s("hugerep", st.sampled_from([2**30, 2**31, 2**32, 2**61, 2**63 - 1]))]
DEAR = [s("copy"), s("cmp", st.sampled_from(sorted(OPS)), pos, val), s("count", val), s("in", val), s("indexall", val), s("to_list", small), s("ctor"),
        s("fullslice"), s("uniform", st.sampled_from(["reverse", "pop0", "del0", "insert0", "delhead", "setmid", "remove", "imul2", "mul2", "addempty", "addself",
                                                      "iaddself", "extendself", "clear", "regrow"])),
        s("cut", st.integers(0, 40), st.integers(0, 40))]


@st.composite
def cases(draw, dear):
    cls = draw(st.sampled_from(["IAL", "IAL", "IAL", "BIAL", "BIAL", "OAL"]))
    n = draw(st.one_of(st.integers(G31 - 3, G31 + 10), st.integers(G31, G31 + 10**6), st.integers(G32 - 3, G32 + 10) if cls == "IAL" else st.integers(G31, G31 + 50)))
    ops = draw(st.lists(st.one_of(CHEAP), min_size=8, max_size=40))
    for i in range(draw(st.integers(0, 2)) if dear or cls == "IAL" and draw(st.integers(0, 2)) == 0 else 0):
        ops.insert(draw(st.integers(0, len(ops))), draw(st.one_of(DEAR)))
    return {"kind": "list", "cls": cls, "n": n, "how": draw(st.sampled_from(["resize", "resize", "init"])), "ops": ops}


MEM = ("memset", "memcpy", "simd", "simda", "set", "get", "calloc", "realloc", "aligned", "reverse")


@st.composite
def mems(draw):
    return {"kind": "mem", "n": draw(st.one_of(st.integers(G31 - 3, G31 + 200), st.integers(G32 - 3, G32 + 200), st.integers(G31, G32 + 10**6))),
            "what": draw(st.sampled_from([w for w in MEM if w not in ("set", "get")])), "v": draw(st.integers(0, 255)),
            "marks": draw(st.lists(st.tuples(pos, st.integers(0, 255)).map(list), min_size=1, max_size=8)), "off": draw(st.sampled_from([0, 1, 64, 4096]))}


class C30:
    id = "C30"
    per_round = 40
    unlimited = True

    def strategy(self, tier):
        return st.one_of(cases(tier != "quick"), cases(tier != "quick"), mems())

    def enumerated(self, tier):
        yield {"kind": "real", "n": G31 + 11, "sort": tier != "quick"}
        for what in MEM:
            for n in (G31 + 7, G32 + 101):
                if what in ("set", "get") and n > G32 or tier == "quick" and what == "reverse" and n > G32:
                    continue
                yield {"kind": "mem", "n": n, "what": what, "v": 77, "marks": [[["end", 0], 5], [["end", 1], 6], [["at", 31, 0], 9], [["low", 3], 8]], "off": 0}
        every = []
        for w in (["end", 0], ["end", 2], ["at", 31, 0], ["at", 31, -1], ["at", 32, 0], ["at", 32, -1], ["low", 0], ["end", 3]):
            k = len(every) % 90 + 1
            for neg in (False, True):
                every += [["set", w, neg, k], ["get", w, neg], ["slice", w, 4, neg], ["index", w, 3, k], ["index", w, 0, k], ["mv", w, 3]]
                if w[0] == "end":
                    every += [["insert", w, neg, k + 1], ["popi", w, neg], ["del", w, neg], ["setslice", w, 1, [k, k + 2, k + 3]], ["delslice", w, 2],
                              ["append", k], ["delsteps", w, 2], ["range", w[1], neg], ["extend", [k, k + 4]], ["iadd", [k]], ["pop"], ["resize", -1 - w[1]],
                              ["append", k + 5], ["append", k + 6], ["reversed", 5], ["insertfar", 2**33, k], ["resize", 3]]
        every += [["slicestep", k] for k in (2**28, -2**28, 2**31, -2**31, 2**32, -2**32, 2**63 - 1, -2**63)] + [["truth"], ["iter", 3], ["remove", ["end", 4]]]
        for cls, n in (("IAL", G31 + 9), ("IAL", G31 - 20), ("IAL", G32 + 9), ("IAL", G32 - 20), ("BIAL", G31 + 9), ("OAL", G31 + 9)):
            yield {"kind": "list", "cls": cls, "n": n, "how": "resize", "ops": every}
        base = [["set", ["end", 0], False, 7], ["set", ["at", 31, 0], False, 8], ["append", 9], ["get", ["end", 0], True], ["len"]]
        for cls in ("IAL", "BIAL", "OAL"):
            for op in [["copy"], ["to_list", 5], ["ctor"], ["fullslice"], ["count", 7], ["indexall", 9], ["in", 55], ["cut", 3, 2],
                       ["cmp", "eq", ["end", 0], 9], ["cmp", "lt", ["end", 1], 3], ["hugerep", 2**32]]:
                if tier == "quick" and (cls, op[0]) in SLOW:
                    continue
                yield {"kind": "list", "cls": cls, "n": G31 + 9, "how": "resize", "ops": base + [op]}
            for u in ("reverse", "pop0", "insert0", "delhead", "setmid", "imul2", "mul2", "addempty", "addself", "iaddself", "clear", "regrow", "remove"):
                if tier == "quick" and (cls, u) in SLOW:
                    continue
                yield {"kind": "list", "cls": cls, "n": G31 + 9, "how": "resize", "ops": [["uniform", u], ["len"], ["append", 3], ["get", ["end", 0], False]]}
            if tier != "quick":
                yield {"kind": "list", "cls": cls, "n": G31 + 9, "how": "resize", "ops": base + [["walk", ["end", 20]]]}

    def run(self, case, ctx):
        if "PFU_HUGE" not in os.environ:
            raise Invalid("not preloaded")
        if not able():
            ctx.label("no address space")
            return
        if case["kind"] == "list":
            return self.list(case, ctx)
        if case["kind"] == "mem":
            return self.mem(case, ctx)
        if case["kind"] == "real":
            return self.real(case, ctx)
        raise Invalid("kind")

    # ---- containers

    def start(self, case):
        cls, n = case["cls"], case["n"]
        if cls not in WIDTH or not isinstance(n, int) or not 2**30 <= n <= 2**33:
            raise Invalid("size")
        x = CLASSES[cls]([], n + ROOM)          # room, so that nothing is moved to overlapping memory later
        x.resize(n)
        m = Model(cls)
        m.n = n
        if case["how"] == "init":
            x.__init__([1, 2, 3], n + ROOM)
            x.resize(n)                         # the fill of a later period goes over the three
        return x, m

    def list(self, case, ctx):
        x, m = self.start(case)
        cls = case["cls"]
        T = type(x)
        dear = 0
        for op in case["ops"]:
            what = "%s of %d elements, %s" % (T.__name__, m.n, op)
            if m.n < 200 or m.n > case["n"] + ROOM - 200:
                break
            blocks = made()
            if self.step(x, m, cls, op, what):
                dear += 1
            elif made() != blocks and op[0] != "hugerep":
                ctx.label("moved")              # to memory that overlaps itself: nothing to be said of it any more
                return
            if len(x) != m.n:
                raise Violation("%s: length %d afterwards, a list: %d" % (what, len(x), m.n))
            for i in (0, 1, G31 - 1, G31, G32 - 1, G32, m.n - 1, m.n - 2, m.n - 40):
                if 0 <= i < m.n and not same(x[i], m.get(i)):
                    raise Violation("%s: afterwards [%d] is %r, of a list %r" % (what, i, x[i], m.get(i)))
                ctx.label("op:" + op[0])
            if m.n and (not same(x[-m.n], m.get(0)) or not same(x[-1], m.get(m.n - 1))):
                raise Violation("%s: negative positions" % what)
        t = x[m.n - 60:] if m.n > 60 else x[:]
        got = list(t)
        exp = m.read(max(0, m.n - 60), m.n)
        if len(got) != len(exp) or not all(map(same, got, exp)):
            raise Violation("the last elements of a %s of %d are %r, of a list %r" % (T.__name__, m.n, got, exp))
        ctx.label(cls)
        ctx.nt(m.n >= G31 or dear > 0)

    def check(self, what, got, exp):
        got = list(got)
        if len(got) != len(exp) or not all(map(same, got, exp)):
            raise Violation("%s gave %r, a list: %r" % (what, got[:50], exp[:50]))

    def step(self, x, m, cls, op, what):
        name = op[0]
        n = m.n
        obj = cls == "OAL"
        if name in ("get", "set"):
            i = where(n, op[1])
            k = i - n if op[2] else i
            if name == "get":
                if not same(x[k], m.get(i)):
                    raise Violation("%s gave %r, a list: %r" % (what, x[k], m.get(i)))
            else:
                x[k] = op[3]
                m.set(i, op[3])
                if not same(x[i], op[3]):
                    raise Violation("%s: reads %r" % (what, x[i]))
        elif name == "setpos":
            i = where(n, op[1])
            operator.setitem(x, i, op[2])
            m.set(i, op[2])
        elif name == "append":
            x.append(op[1])
            m.n += 1
            m.set(n, op[1])
        elif name in ("extend", "iadd"):
            if name == "extend":
                x.extend(op[1])
            else:
                x += op[1]
            m.write(n, op[1])
            m.n += len(op[1])
        elif name == "insert":
            i = where(n, op[1])
            x.insert(i - n if op[2] else i, op[3])
            rest = m.read(i, n)
            m.write(i, [op[3]] + rest)
            m.n += 1
        elif name == "insertfar":
            if op[1] < n:
                return
            x.insert(op[1], op[2])
            m.set(n, op[2])
            m.n += 1
        elif name == "pop":
            e, g = m.get(n - 1), x.pop()
            if not same(e, g):
                raise Violation("%s gave %r, a list: %r" % (what, g, e))
            m.n -= 1
        elif name in ("popi", "del"):
            i = where(n, op[1])
            k = i - n if op[2] else i
            if name == "del":
                del x[k]
            else:
                e, g = m.get(i), x.pop(k)
                if not same(e, g):
                    raise Violation("%s gave %r, a list: %r" % (what, g, e))
            m.write(i, m.read(i + 1, n))
            m.n -= 1
        elif name == "slice":
            i = where(n, op[1])
            j = min(n, i + op[2])
            g = x[i - n:j - n] if op[3] and j < n else x[i:j]
            if type(g) not in (type(x), list):
                raise Violation("%s is a %s" % (what, type(g).__name__))
            self.check(what, g, m.read(i, j))
            self.check(what + " (far stop)", x[n - 5:2**63 - 1], m.read(n - 5, n))
        elif name == "slicestep":
            r = range(n)[::op[1]]
            self.check(what, x[::op[1]], [m.get(i) for i in r])
        elif name == "setslice":
            i = where(n, op[1])
            j = min(n, i + op[2])
            x[i:j] = op[3]
            rest = m.read(j, n)
            m.write(i, op[3] + rest)
            m.n = i + len(op[3]) + len(rest)
        elif name == "delslice":
            i = where(n, op[1])
            j = min(n, i + op[2])
            del x[i:j]
            rest = m.read(j, n)
            m.write(i, rest)
            m.n = i + len(rest)
        elif name == "delsteps":
            i = where(n, op[1])
            rest = m.read(i, n)
            del rest[::op[2]]
            try:
                del x[i::op[2]]
            except NotImplementedError:
                return
            m.write(i, rest)
            m.n = i + len(rest)
        elif name == "range":
            k = -n - 1 - op[1] if op[2] else n + op[1]
            exact(what, lambda: x[k], IndexError)
            exact(what, lambda: operator.setitem(x, k, 1), IndexError)
            exact(what, lambda: operator.delitem(x, k), IndexError)
            exact(what, lambda: x.pop(k), IndexError)
        elif name == "resize":
            x.resize(n + op[1])
            m.n = n + op[1]
            m.write(n, [m.base if cls != "OAL" else None] * max(0, op[1]))
        elif name == "len":
            pass
        elif name == "truth":
            if not x:
                raise Violation("%s is false" % what)
        elif name == "index":
            i = where(n, op[1])
            j = min(n, i + op[2])
            k = m.find(op[3], i, j)
            if k is None:
                exact(what, lambda: x.index(op[3], i, j), ValueError)
                exact(what, lambda: x.index(op[3], i - n, j), ValueError)
            elif x.index(op[3], i, j) != k or x.index(op[3], i - n, 2**63 - 1) != k:
                raise Violation("%s gave %r, a list: %r" % (what, x.index(op[3], i, j), k))
        elif name == "reversed":
            it = reversed(x)
            if operator.length_hint(it) not in (0, n):
                raise Violation("%s: length hint %d" % (what, operator.length_hint(it)))
            self.check(what, [next(it) for i in range(op[1])], m.read(n - 1, n - 1 - op[1], -1))
        elif name == "iter":
            it = iter(x)
            if operator.length_hint(it) not in (0, n):
                raise Violation("%s: length hint %d" % (what, operator.length_hint(it)))
            self.check(what, [next(it) for i in range(op[1])], m.read(0, op[1]))
        elif name == "mv":
            if obj:
                return
            i = where(n, op[1])
            with memoryview(x) as v:
                if v.nbytes != n * WIDTH[cls] or v.itemsize != WIDTH[cls]:
                    raise Violation("%s: a buffer of %d bytes" % (what, v.nbytes))
                w = v if v.format != "B" else v.cast("i" if cls == "IAL" else "q")
                if len(w) != n:
                    raise Violation("%s: %d items" % (what, len(w)))
                self.check(what, w[i:i + op[2]], m.read(i, min(n, i + op[2])))
        elif name == "remove":
            i = where(n, op[1])
            v = 200                             # like all elements an object that lives forever
            del x[i + 1:]
            m.n = i + 1
            exact(what, lambda: x.index(v, n - 100), ValueError)
            x.extend([v + 1])
            m.set(m.n, v + 1)
            m.n += 1
        elif name == "hugerep":
            k = op[1]
            try:
                r = x * k
            except SystemError as e:
                raise Violation("%s raised %r" % (what, e))
            except Exception:
                return
            raise Violation("%s gave %d elements" % (what, len(r)))
        else:
            return self.dear(x, m, cls, op, what)
        return False

    def dear(self, x, m, cls, op, what):
        name, n = op[0], m.n
        T = type(x)
        obj = cls == "OAL"
        if name in ("copy", "ctor", "fullslice"):
            y = x.copy() if name == "copy" else T(x) if name == "ctor" else x[:]
            if type(y) not in (T, list) or len(y) != n:
                raise Violation("%s: %s of %d elements" % (what, type(y).__name__, len(y)))
            self.check(what, y[n - 60:], m.read(n - 60, n))
            if type(y) is T:                    # else the period is another one
                self.check(what, y[:20], m.read(0, 20))
            y.append(100)
            if len(x) != n or len(y) != n + 1:
                raise Violation("%s: not independent" % what)
        elif name == "cmp":
            y = x.copy()
            i = where(n, op[2])
            d = m.copy()
            if same(m.get(i), op[3]) or obj and m.get(i) is None:
                return
            y[i] = op[3]
            d.set(i, op[3])
            e = OPS[op[1]](m.get(i), op[3])
            if OPS[op[1]](x, y) is not e:
                raise Violation("%s: comparison with a copy that holds %r in place %d gave %r" % (what, op[3], i, not e))
            y[i] = m.get(i)
            if not x == y or x != y:
                raise Violation("%s: not equal to its copy" % what)
            del y[n - 1]
            if x == y or not x != y or y > x and not obj:
                raise Violation("%s: equal to a copy without the last element" % what)
        elif name == "count":
            if x.count(op[1]) != m.count(op[1]):
                raise Violation("%s gave %d, a list: %d" % (what, x.count(op[1]), m.count(op[1])))
            if not obj and x.count(m.base) != m.count(m.base):
                raise Violation("%s: count of the others %d, a list: %d" % (what, x.count(m.base), m.count(m.base)))
        elif name == "in":
            if (op[1] in x) is not (m.find(op[1], 0, n) is not None):
                raise Violation("%s gave %r" % (what, op[1] in x))
        elif name == "indexall":
            k = m.find(op[1], 0, n)
            if k is None:
                exact(what, lambda: x.index(op[1]), ValueError)
                exact(what, lambda: x.remove(op[1]), ValueError)
            elif x.index(op[1]) != k:
                raise Violation("%s gave %d, a list: %d" % (what, x.index(op[1]), k))
            k = m.find(op[1], n - 200, n)
            if k is None:
                exact(what, lambda: x.index(op[1], -200), ValueError)
            elif x.index(op[1], -200) != k:
                raise Violation("%s from -200 gave %d, a list: %d" % (what, x.index(op[1], -200), k))
        elif name == "to_list":
            y = x.to_list()
            if type(y) is not list or len(y) != n:
                raise Violation("%s: %s of %d" % (what, type(y).__name__, len(y)))
            if obj or cls == "BIAL":            # the same period as in the list
                self.check(what, y[n - 60:], m.read(n - 60, n))
                z = T(y)
                if len(z) != n:
                    raise Violation("%s and back: %d elements" % (what, len(z)))
                self.check(what + " and back", z[n - 60:], m.read(n - 60, n))
            else:
                self.check(what, y[n - 60:], m.read(n - 60, n))
        elif name == "cut":
            # all but the first a and the last b
            a, b = op[1], op[2]
            head, rest = m.read(0, a), m.read(n - b, n)
            del x[a:n - b]
            m.ex.clear()
            m.write(0, head + rest)
            m.n = a + b
            self.check(what, x, head + rest)
        elif name == "walk":
            # an iterator that has gone a long way; slow
            i = where(n, op[1])
            it = itertools.islice(iter(x), i, None)
            self.check(what, it, m.read(i, n))
        elif name == "uniform":
            if not m.uniform():
                return True
            b = m.base
            u = op[1]
            if u == "reverse":
                x.reverse()
            elif u == "pop0":
                if not same(x.pop(0), b):
                    raise Violation("%s gave another element" % what)
                m.n -= 1
            elif u == "del0":
                del x[0]
                m.n -= 1
            elif u == "insert0":
                x.insert(0, b)
                m.n += 1
            elif u == "delhead":
                del x[:7]
                m.n -= 7
            elif u == "setmid":
                x[5:9] = [b] * 20
                m.n += 16
            elif u == "remove":
                x.remove(b)
                m.n -= 1
            elif u == "imul2":
                y = x
                x *= 2
                if x is not y or len(x) != 2 * n or not same(x[2 * n - 1], b) or not same(x[n], b):
                    raise Violation("%s: %d elements" % (what, len(x)))
                x.resize(n)
            elif u in ("mul2", "addself"):
                y = x * 2 if u == "mul2" else x + x
                if len(y) != 2 * n or not same(y[2 * n - 1], b) or not same(y[n], b) or not same(y[-1], b):
                    raise Violation("%s: %d elements" % (what, len(y)))
            elif u == "addempty":
                y = x + [b]
                if len(y) != n + 1 or not same(y[n], b) or not same(y[G31 - 1], b):
                    raise Violation("%s: %d elements" % (what, len(y)))
            elif u in ("iaddself", "extendself"):
                if u == "iaddself":
                    x += x
                else:
                    x.extend(x)
                if len(x) != 2 * n or not same(x[2 * n - 1], b):
                    raise Violation("%s: %d elements" % (what, len(x)))
                x.resize(n)
            elif u == "clear":
                x.clear()
                if len(x) != 0 or x or list(x):
                    raise Violation("%s: %d elements" % (what, len(x)))
                m.n = 0
            elif u == "regrow":
                x.resize(10)
                if len(x) != 10 or x.to_list() != [b] * 10:
                    raise Violation("%s to 10: %r" % (what, x))
                x.resize(n)
            else:
                raise Invalid("uniform")
        else:
            raise Invalid("op")
        return True

    # ---- memory

    def mem(self, case, ctx):
        from pyfastutil.unsafe import SIMD, Unsafe
        n, what, v, off = case["n"], case["what"], case["v"], case["off"]
        if not isinstance(n, int) or not 2**30 <= n <= 2**33 or what not in MEM or not 0 <= v <= 255 or not 0 <= off <= 4096:
            raise Invalid("mem")
        U, S = Unsafe(), SIMD()
        text = "%s of %d bytes" % (what, n)
        fill = (v + 1) % 256
        size = n + off + 64
        # where it counts: marks as positions in the n bytes
        marks = {}
        for w, b in case["marks"]:
            i = where(n, w)
            marks[i % PERIOD] = (i, b % 256)

        def put(p):
            for i, b in marks.values():
                ctypes.memset(p + i, b, 1)

        def see(p, base, k=None):
            for i in [n - 1, n - 2, n - 40, G31 - 1, G31, G32 - 1, G32] + [i for i, b in marks.values()]:
                if i >= n:
                    continue
                e = marks[i % PERIOD][1] if k and i % PERIOD in marks else base
                g = ctypes.c_ubyte.from_address(p + i).value
                if g != e:
                    raise Violation("%s: byte %d is %d afterwards, has to be %d" % (text, i, g, e))

        if what == "calloc":
            for a, b in ((n, 1), (1, n), ((n + 7) // 8, 8)):
                p = U.calloc(a, b)
                see(p, 0)
                U.free(p)
            ctx.nt()
            return
        p = U.aligned_malloc(size, 64) if what == "aligned" else U.malloc(size)
        a = p + off if what != "simda" else p + off // 64 * 64
        ctypes.memset(p, fill, PERIOD)
        if what in ("memset", "aligned"):
            U.memset(a, v, n)
            see(a, v)
        elif what in ("memcpy", "simd", "simda"):
            q = U.malloc(size)
            b = q + (a - p)
            ctypes.memset(p, v, PERIOD)
            put(a)
            ctypes.memset(q, fill, PERIOD)
            f = {"memcpy": U.memcpy, "simd": S.memcpyChar, "simda": S.memcpyCharAligned}[what]
            f(a, b, n)
            see(b, v, True)
            see(a, v, True)
            U.free(q)
        elif what == "set":
            # the bytes need memory of their own, for they begin with a header
            if available() < 10 or n > G31 + 1000:
                raise Invalid("memory")
            huge(0)
            try:
                data = bytes([v]) * n
            finally:
                huge(1)
            U.set(a, data)
            see(a, v)
        elif what == "get":
            ctypes.memset(p, v, PERIOD)
            put(a)
            if available() < 10 or n > G31 + 1000:
                raise Invalid("memory")
            huge(0)
            try:
                data = U.get(a, n)
            finally:
                huge(1)
            if type(data) is not bytes or len(data) != n:
                raise Violation("%s gave %s of %d" % (text, type(data).__name__, len(data)))
            for i in [n - 1, n - 2, n - 40, G31 - 1] + [i for i, b in marks.values()]:
                e = ctypes.c_ubyte.from_address(a + i).value
                if data[i] != e:
                    raise Violation("%s: byte %d is %d, has to be %d" % (text, i, data[i], e))
        elif what == "realloc":
            ctypes.memset(p, v, PERIOD)
            p = U.realloc(p, size * 2)
            a = p
            see(a, v)
        elif what == "reverse":
            ctypes.memset(p, v, PERIOD)
            S.reverseChar(a, n)
            see(a, v)
        if what == "aligned":
            U.aligned_free(p)
        else:
            U.free(p)
        ctx.label("mem:" + what)
        ctx.nt()

    # ---- memory of its own for every element

    def real(self, case, ctx):
        n = case["n"]
        if available() < 14:
            ctx.label("real: no memory")
            return
        import subprocess
        import sys
        code = REAL % (n, bool(case["sort"]))
        env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        try:
            p = subprocess.run([sys.executable, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            ctx.label("real: slow")
            return
        out = p.stdout.decode(errors="replace")[-500:]
        if p.returncode == 3 or p.returncode == -9 or "MemoryError" in out or "bad_alloc" in out:
            ctx.label("real: no memory")
            return
        if p.returncode != 0:
            raise Violation("IntArrayList of %d elements: %s %s" % (n, p.returncode, out))
        ctx.label("real")
        ctx.nt()


REAL = """
from pyfastutil.ints import IntArrayList
n, sort = %d, %r
x = IntArrayList()
x.resize(n)
marks = {n - 1: 5, n - 2: 4, 0: 1, 3: 2, 2**31: 6, 2**31 - 1: 7, n // 2: 8, n // 2 - 1: 9, n // 2 + 1: 10, 2**30: 11}
for i, v in marks.items():
    x[i] = v
assert [x[i] for i in marks] == list(marks.values()), "set"
x.reverse()
assert len(x) == n and [x[n - 1 - i] for i in marks] == list(marks.values()), "reverse: %%r" %% [x[n - 1 - i] for i in marks]
assert [x.count(v) for v in (0, 11)] == [n - 10, 1], "count"
assert x.index(1) == n - 1 and x.index(2) == n - 4, "index"
x.remove(1)
assert len(x) == n - 1 and x[-3] == 2, "remove"
x.pop(0)
assert x[-3] == 2 and x[0] == 4, "pop(0)"
if sort:
    x[5] = -3
    x.sort()
    s = sorted([v for v in marks.values() if v not in (1, 5)])
    assert x[0] == -3 and x[1] == 0 and x[2**31 - 9] == 0 and x[n - 2 - len(s):].to_list() == s, "sort: %%r" %% x[n - 20:].to_list()
"""

CHECK = C30()
