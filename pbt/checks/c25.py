"""C25: costs grow as a list's.

The same work is done at two sizes, eight times apart, and the thread's own processor time is compared: proportional growth
gives about 8 to 12, a hidden walk or copy of the container gives 64."""
import gc
import random
import time

from hypothesis import strategies as st

from pbt import gen
from pbt.engine import Invalid, Violation
from pyfastutil.ints import BigIntArrayList, IntArrayList, IntLinkedList
from pyfastutil.objects import ObjectArrayList, ObjectLinkedList

CLASSES = {c.__name__: c for c in (IntArrayList, BigIntArrayList, IntLinkedList, ObjectArrayList, ObjectLinkedList)}
ARRAYS = ("IntArrayList", "BigIntArrayList", "ObjectArrayList")
FACTOR = 8
LIMIT = 30
now = time.thread_time_ns


class World:
    def __init__(self, cls, n, start, data):
        self.C = CLASSES[cls]
        self.n = n
        self.x = self.C(data) if start else self.C()
        self.it = self.rit = None
        self.other = self.C([3, 1, 2])


# ---- steps of a loop: each takes constant time (amortised), whatever the length
def s_append(w, i): w.x.append(i)
def s_extend(w, i): w.x.extend([i, 1])
def s_extend1(w, i): w.x.extend((i,))
def s_extendgen(w, i): w.x.extend(iter((i, 2)))
def s_extendc(w, i): w.x.extend(w.other)
def s_iadd(w, i): w.x += [i]
def s_iaddt(w, i): w.x += (i, 5)
def s_iaddgen(w, i): w.x += iter((i,))
def s_iaddc(w, i): w.x += w.other
def s_iaddr(w, i): w.x += range(3)
def s_tail(w, i): w.x[len(w.x):] = [i]
def s_pop(w, i): len(w.x) and w.x.pop()
def s_popm1(w, i): len(w.x) and w.x.pop(-1)
def s_dell(w, i):
    if len(w.x):
        del w.x[-1]
def s_dellast(w, i): w.x[-2:] = []
def s_delslice(w, i): del w.x[-1:]
def s_inslast(w, i): w.x.insert(len(w.x), i)
def s_inshuge(w, i): w.x.insert(1 << 40, i)
def s_get(w, i):
    k = len(w.x)
    k and w.x[i * 7919 % k]
def s_getneg(w, i):
    k = len(w.x)
    k and w.x[-1 - i * 7919 % k]
def s_set(w, i):
    k = len(w.x)
    if k:
        w.x[i * 7919 % k] = i
def s_first(w, i): len(w.x) and w.x[0]
def s_last(w, i): len(w.x) and w.x[-1]
def s_setfirst(w, i):
    if len(w.x):
        w.x[0] = i
def s_setlast(w, i):
    if len(w.x):
        w.x[-1] = i
def s_slice(w, i):
    k = len(w.x) and i * 7919 % len(w.x)
    w.x[k:k + 3]
def s_setslice(w, i):
    k = len(w.x)
    if k >= 3:
        k = i * 7919 % (k - 2)
        w.x[k:k + 3] = [1, 2, 3]
def s_head(w, i): w.x[:3]
def s_taill(w, i): w.x[-3:]
def s_len(w, i): len(w.x), bool(w.x)
def s_iter1(w, i): next(iter(w.x), None)
def s_rev1(w, i): next(reversed(w.x), None)
def s_next(w, i):
    if w.it is None:
        w.it = iter(w.x)
    if next(w.it, None) is None:
        w.it = None
def s_rnext(w, i):
    if w.rit is None:
        w.rit = reversed(w.x)
    if next(w.rit, None) is None:
        w.rit = None
def s_grow(w, i): w.x.resize(len(w.x) + 1)
def s_grow5(w, i): w.x.resize(len(w.x) + 5)
def s_shrink(w, i): w.x.resize(max(0, len(w.x) - 1))
def s_in(w, i): len(w.x) and w.x[0] in w.x
def s_index(w, i): len(w.x) and w.x.index(w.x[0])
def s_popfirst(w, i): len(w.x) and w.x.pop(0)
def s_delfirst(w, i):
    if len(w.x):
        del w.x[0]
def s_insfirst(w, i): w.x.insert(0, i)
def s_remfirst(w, i): len(w.x) and w.x.remove(w.x[0])
def s_headset(w, i): w.x[0:0] = [i]
def s_headdel(w, i): del w.x[:1]
NEAR = (2, 3, 5, 9, 17, 33, 65, 100)      # distances from an end


def d_(w, i):
    """A position near the end, or None."""
    k = NEAR[i % 8]
    return len(w.x) - k if len(w.x) > 2 * k else None


def s_nearget(w, i):
    k = d_(w, i)
    if k is not None:
        w.x[k]
def s_nearneg(w, i):
    if d_(w, i) is not None:
        w.x[-NEAR[i % 8]]
def s_nearset(w, i):
    k = d_(w, i)
    if k is not None:
        w.x[k] = i
def s_nearpop(w, i):
    k = d_(w, i)
    if k is not None:
        w.x.pop(k)
def s_neardel(w, i):
    if d_(w, i) is not None:
        del w.x[-NEAR[i % 8]]
def s_nearins(w, i):
    k = d_(w, i)
    if k is not None:
        w.x.insert(k, i)
def s_nearslice(w, i):
    k = d_(w, i)
    if k is not None:
        w.x[k:k + 2]
def s_nearsetsl(w, i):
    k = d_(w, i)
    if k is not None:
        w.x[k:k + 2] = [i, 4]
def s_neardelsl(w, i):
    k = d_(w, i)
    if k is not None:
        del w.x[k:k + 2]
def s_neargrow(w, i):
    k = d_(w, i)
    if k is not None:
        w.x[k:k] = [i]
def s_headnear(w, i):
    k = NEAR[i % 8]
    if len(w.x) > 2 * k:
        w.x[k]
        w.x.insert(k, w.x.pop(k))
def s_headnearsl(w, i):
    k = NEAR[i % 8]
    if len(w.x) > 2 * k:
        w.x[k:k + 2] = w.x[k:k + 2]
        del w.x[k:k + 1]
def s_new(w, i): w.C([i, 2, 3])
def s_clearsome(w, i):
    if i % 512 == 511:
        w.x.clear()
def s_imul1(w, i): w.x.__imul__(1) if len(w.x) < 64 else None
def s_isnot(w, i): w.x == 5, w.x != None  # noqa: E711
def s_bad(w, i):
    try:
        w.x.pop(1 << 40)
    except (IndexError, OverflowError):
        pass
def s_badget(w, i):
    try:
        w.x[len(w.x)]
    except IndexError:
        pass


BOTH = ("append", "extend", "extend1", "extendgen", "extendc", "iadd", "iaddt", "iaddgen", "iaddc", "iaddr", "tail", "pop", "popm1", "dell", "inslast",
        "inshuge", "first", "last", "setfirst", "setlast", "head", "len", "iter1", "rev1", "in", "index", "new", "clearsome", "imul1", "isnot", "bad", "badget")
ONLY_ARRAY = ("get", "getneg", "set", "slice", "setslice", "next", "rnext", "delslice", "dellast", "taill", "grow", "grow5", "shrink")
ONLY_LINKED = ("popfirst", "delfirst", "insfirst", "remfirst", "headset", "headdel", "nearget", "nearneg", "nearset", "nearpop", "neardel",
               "nearins", "nearslice", "nearsetsl", "neardelsl", "neargrow", "headnear", "headnearsl")
STEPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("s_")}


# ---- one operation on the whole container; each gets a fresh container
def loop(it):
    for _ in it:
        pass


def absent(x):
    try:
        x.index(-987654)
    except ValueError:
        pass


def delhalf(x): del x[len(x) // 4:len(x) // 4 * 3]
def sethalf(x): x[len(x) // 4:len(x) // 4 * 3] = [7] * len(x)
def delstep(x): del x[::2]
def delback(x): del x[::-3]
def extended(x, s, a):
    try:
        x[s] = a
    except NotImplementedError:     # may be refused (C07)
        pass


def setstep(x): extended(x, slice(None, None, 2), [7] * ((len(x) + 1) // 2))
def setback(x): extended(x, slice(-2, None, -3), [7] * len(range(len(x))[-2::-3]))
def setsame(x): extended(x, slice(None, None, -1), x.to_list())
def addlist(x): return x.to_list and x.__iadd__([5] * len(x))
def imul(x): x *= 3
def iaddself(x): x += x
def failsort(x):
    try:
        x.sort(key=lambda v: 1 // 0)
    except ZeroDivisionError:
        pass


def drain(x):
    while len(x):
        x.pop()


def drainfirst(x):
    while len(x):
        x.pop(0)


def mapsort(x):
    x.sort(key=lambda v: -v)


WHOLE = {
    "sort": lambda x: x.sort(), "rsort": lambda x: x.sort(reverse=True), "keysort": mapsort, "failsort": failsort, "twice": lambda x: (x.sort(), x.sort()),
    "there and back": lambda x: (x.sort(), x.sort(reverse=True)), "reverse": lambda x: x.reverse(), "copy": lambda x: x.copy(), "to_list": lambda x: x.to_list(),
    "list": list, "ctor": lambda x: type(x)(x), "ctorlist": lambda x: type(x)(x.to_list()), "ctorgen": lambda x: type(x)(iter(x.to_list())),
    "ctorsized": lambda x: type(x)(x.to_list(), 5), "iter": lambda x: loop(iter(x)), "reversed": lambda x: loop(reversed(x)), "repr": repr,
    "eq": lambda x: x == x.copy(), "eqlist": lambda x: x == x.to_list(), "lt": lambda x: x < x.copy(), "gelist": lambda x: x >= x.to_list(),
    "count": lambda x: x.count(-987654), "in": lambda x: -987654 in x, "index": absent, "mul": lambda x: x * 3, "imul": imul, "add": lambda x: x + x,
    "addlist": lambda x: x + x.to_list(), "iadd": addlist, "iaddself": iaddself, "extendself": lambda x: x.extend(x), "extendgen": lambda x: x.extend(v for v in x.to_list()),
    "all": lambda x: x[:], "half": lambda x: x[len(x) // 2:], "step": lambda x: x[::2], "back": lambda x: x[::-1], "sethalf": sethalf, "delhalf": delhalf,
    "delstep": delstep, "delback": delback, "setstep": setstep, "setback": setback, "setsame": setsame, "clear": lambda x: x.clear(), "drain": drain, "removelast": lambda x: x.remove(x[-1]), "drainfirst": drainfirst, "mid": lambda x: x[len(x) // 2],
    "midpop": lambda x: x.pop(len(x) // 2), "midinsert": lambda x: x.insert(len(x) // 2, 5),
}
SORTS = {"sort": 6000, "rsort": 6000, "twice": 6000, "there and back": 6000, "keysort": 6000}      # above the sizes where sorting changes algorithm


def usable(cls):
    """drainfirst is quadratic on an array by nature; the linked lists take no size."""
    return [op for op in sorted(WHOLE) if not (op == "drainfirst" and cls in ARRAYS or op == "ctorsized" and cls not in ARRAYS)]


PATTERNS = ("random", "sorted", "reversed", "equal", "few", "organ", "saw", "saw3", "killer", "nearly", "extremes", "blocks", "swapped", "interleaved", "push")


def data(kind, n, seed):
    r = random.Random(seed)
    if kind == "random":
        return [r.randrange(1 << 30) for _ in range(n)]
    if kind == "sorted":
        return list(range(n))
    if kind == "reversed":
        return list(range(n, 0, -1))
    if kind == "equal":
        return [5] * n
    if kind == "few":
        return [r.randrange(4) for _ in range(n)]
    if kind == "organ":
        return list(range(n // 2)) + list(range(n - n // 2, 0, -1))
    if kind == "saw":
        k = r.choice((2, 17, 64, 1000))
        return [i % k for i in range(n)]
    if kind == "saw3":
        k = max(1, n // 3)
        return [i % k for i in range(n)]
    if kind == "killer":     # of median-of-three quicksort
        m = n // 2
        out = [0] * (2 * m)
        for i in range(1, m + 1):
            if i % 2:
                out[i - 1] = i
                out[i if i < 2 * m else i - 1] = m + i
            out[m + i - 1] = 2 * i
        return out + [1] * (n - len(out))
    if kind == "nearly":
        v = list(range(n))
        for _ in range(10):
            a, b = r.randrange(n), r.randrange(n)
            v[a], v[b] = v[b], v[a]
        return v
    if kind == "extremes":
        return [(i if i % 2 else n * 2 - i) for i in range(n)]
    if kind == "blocks":
        v = [i // 32 * 32 + (31 - i % 32) for i in range(n)]
        return v
    if kind == "swapped":
        return list(range(n // 2, n)) + list(range(n // 2))
    if kind == "interleaved":
        return [i // 2 if i % 2 == 0 else n - i // 2 for i in range(n)]
    if kind == "push":       # ascending, the smallest at the end
        return list(range(1, n)) + [0] * (n > 0)
    raise Invalid("pattern")


@gen.cached
def cases_(tier):
    def body(cls):
        names = BOTH + (ONLY_ARRAY if cls in ARRAYS else ONLY_LINKED)
        return st.fixed_dictionaries({"cls": st.just(cls), "start": st.sampled_from((0, 1)), "n": st.integers(3000, 6000),
                                      "body": st.lists(st.sampled_from(names), min_size=1, max_size=3), "p": st.sampled_from(PATTERNS)})

    def whole(cls):
        return st.fixed_dictionaries({"cls": st.just(cls), "n": st.integers(1500, 2500), "p": st.sampled_from(PATTERNS), "seed": st.integers(0, 9),
                                      "op": st.sampled_from(usable(cls)),
                                      "prep": st.lists(st.sampled_from(("append", "pop", "reverse", "copy", "insert", "mid", "iter", "sort", "clear")), max_size=3)})
    return st.sampled_from(sorted(CLASSES)).flatmap(lambda c: st.one_of(body(c), whole(c)))


PREP = {"append": lambda x: x.append(3), "pop": lambda x: x.pop(), "reverse": lambda x: x.reverse(), "insert": lambda x: x.insert(0, 9),
        "mid": lambda x: x.pop(len(x) // 2), "iter": lambda x: next(iter(x), None), "sort": lambda x: x.sort()}


class C25:
    id = "C25"
    per_round = 100

    def strategy(self, tier):
        return cases_(tier)

    def enumerated(self, tier):
        for cls in sorted(CLASSES):
            for s in BOTH + (ONLY_ARRAY if cls in ARRAYS else ONLY_LINKED):
                for start in (0, 1):
                    yield {"cls": cls, "start": start, "n": 5000, "body": [s], "p": "random"}
            for op in usable(cls):
                yield {"cls": cls, "n": 2500, "p": "random", "seed": 1, "op": op, "prep": []}
            for p in PATTERNS:
                for op in ("sort", "rsort", "there and back"):
                    yield {"cls": cls, "n": 2500, "p": p, "seed": 2, "op": op, "prep": []}

    def run(self, case, ctx):
        cls = case["cls"]
        n = case["n"]
        if cls not in CLASSES or not 500 <= n <= 10000:
            raise Invalid("n")
        names = BOTH + (ONLY_ARRAY if cls in ARRAYS else ONLY_LINKED)
        if "body" in case:
            if not case["body"] or not set(case["body"]) <= set(names):
                raise Invalid("body")
            measure = self.loop
        else:
            if case["op"] not in usable(cls):
                raise Invalid("op")
            n = max(n, SORTS.get(case["op"], 0))
            measure = self.whole
        gc.collect()
        gc.disable()
        try:
            small = measure(case, n, 3, None)
            large = measure(case, n * FACTOR, 1, small)
            tries = 0
            while large[0] > LIMIT * small[0] and tries < 6:
                tries += 1
                s2, l2 = measure(case, n, 3, None), measure(case, n * FACTOR, 2, small)
                small = min(small, s2) if small[1] == s2[1] else small
                large = min(large, l2)
        finally:
            gc.enable()
        ratio = large[0] / max(1, small[0])
        ctx.label("ratio over 16", int(ratio > 16))
        ctx.label("ratio over 22", int(ratio > 22))
        ctx.label("loop" if "body" in case else "whole")
        ctx.nt()
        if ratio > LIMIT:
            raise Violation("%s: %s takes %.3f ms at size %d and %.3f ms at size %d: %.0f times as long" % (
                cls, case.get("body") or case["op"], small[0] / 1e6, n, large[0] / 1e6, n * FACTOR, ratio))

    @staticmethod
    def loop(case, n, repeats, like):
        steps = [STEPS[s] for s in case["body"]]
        best = 1 << 62
        d = data(case["p"], n, 1)
        for _ in range(repeats):
            w = World(case["cls"], n, case["start"], d)
            t = now()
            for i in range(n):
                for s in steps:
                    s(w, i)
            best = min(best, now() - t)
        return best, 1

    @staticmethod
    def whole(case, n, repeats, like):
        f = WHOLE[case["op"]]
        C = CLASSES[case["cls"]]
        d = data(case["p"], n, case["seed"])
        prep = case["prep"]
        rounds = like[1] if like else None

        def once():
            x = C(d)
            for p in prep:
                if p == "copy":
                    x = x.copy()
                elif p == "clear":
                    x.clear()
                    x.extend(d)
                elif p in PREP:
                    PREP[p](x)
                else:
                    raise Invalid("prep")
            t = now()
            r = f(x)
            t = now() - t
            if r is not x:
                t2 = now()
                del r
                t += now() - t2
            t2 = now()
            del x
            return t + now() - t2
        if rounds is None:
            first = once()
            rounds = max(1, min(20, 200000 // max(1, first)))
        best = 1 << 62
        for _ in range(repeats):
            best = min(best, sum(once() for _ in range(rounds)))
        return best, rounds


CHECK = C25()
