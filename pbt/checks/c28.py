"""C28: Python's own functions and the C API treat the containers as the lists they stand for.

A case is a container, a list of the same elements, and a history of calls of generic functions (those of the C API that work
on sequences, mappings, numbers and objects, called directly, and builtins, operators and modules of the standard library)
that is applied to both."""
import array
import bisect
import collections
import ctypes
import functools
import heapq
import itertools
import math
import operator
import random
import statistics

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import ALL_TYPES, CLASSES, INTS, RANGE, SUBCLASSES
from pbt.engine import Invalid, Violation

P = ctypes.pythonapi
O = ctypes.py_object
N = ctypes.c_ssize_t
I = ctypes.c_int
MIN, MAX = -2**63, 2**63 - 1


def capi(name, res, *args):
    f = ctypes.PYFUNCTYPE(res, *args)((name, P))
    return f


# what each argument is: i an index, n a small count, v an element, o another source, s text, k an index or slice object,
# c a comparison
API = {}
for name, res, args, sig in (
        ("PySequence_Check", I, (O,), ""), ("PySequence_Size", N, (O,), ""), ("PySequence_Length", N, (O,), ""), ("PyObject_Size", N, (O,), ""),
        ("PyObject_Length", N, (O,), ""), ("PyMapping_Size", N, (O,), ""), ("PyMapping_Length", N, (O,), ""), ("PyObject_LengthHint", N, (O, N), "n"),
        ("PySequence_GetItem", O, (O, N), "i"), ("PySequence_SetItem", I, (O, N, O), "iv"), ("PySequence_DelItem", I, (O, N), "i"),
        ("PySequence_GetSlice", O, (O, N, N), "ii"), ("PySequence_SetSlice", I, (O, N, N, O), "iil"), ("PySequence_DelSlice", I, (O, N, N), "ii"),
        ("PySequence_Concat", O, (O, O), "l"), ("PySequence_Repeat", O, (O, N), "n"), ("PySequence_InPlaceConcat", O, (O, O), "o"),
        ("PySequence_InPlaceRepeat", O, (O, N), "n"), ("PySequence_Contains", I, (O, O), "v"), ("PySequence_In", I, (O, O), "v"),
        ("PySequence_Count", N, (O, O), "v"), ("PySequence_Index", N, (O, O), "v"), ("PySequence_List", O, (O,), ""), ("PySequence_Tuple", O, (O,), ""),
        ("PySequence_Fast", O, (O, ctypes.c_char_p), "b"), ("PyObject_GetItem", O, (O, O), "k"), ("PyObject_SetItem", I, (O, O, O), "Iv"),
        ("PyObject_DelItem", I, (O, O), "k"), ("PyMapping_Check", I, (O,), ""), ("PyMapping_HasKey", I, (O, O), "k"),
        ("PyMapping_GetItemString", O, (O, ctypes.c_char_p), "b"), ("PyMapping_HasKeyString", I, (O, ctypes.c_char_p), "b"),
        ("PyObject_DelItemString", I, (O, ctypes.c_char_p), "b"), ("PyMapping_Keys", O, (O,), ""),
        ("PyNumber_Check", I, (O,), ""), ("PyNumber_Add", O, (O, O), "l"), ("PyNumber_InPlaceAdd", O, (O, O), "o"), ("PyNumber_Multiply", O, (O, O), "N"),
        ("PyNumber_InPlaceMultiply", O, (O, O), "N"), ("PyNumber_Subtract", O, (O, O), "l"), ("PyNumber_Or", O, (O, O), "l"), ("PyNumber_Negative", O, (O,), ""),
        ("PyNumber_Index", O, (O,), ""), ("PyNumber_Long", O, (O,), ""), ("PyNumber_Float", O, (O,), ""), ("PyNumber_Power", O, (O, O, O), "ll"),
        ("PyObject_IsTrue", I, (O,), ""), ("PyObject_Not", I, (O,), ""), ("PyObject_Repr", O, (O,), ""), ("PyObject_Str", O, (O,), ""), ("PyObject_ASCII", O, (O,), ""),
        ("PyObject_Hash", N, (O,), ""), ("PyObject_RichCompare", O, (O, O, I), "lc"), ("PyObject_RichCompareBool", I, (O, O, I), "lc"),
        ("PyIter_Check", I, (O,), ""), ("PyCallable_Check", I, (O,), ""), ("PyIndex_Check", I, (O,), ""), ("PyAIter_Check", I, (O,), ""),
        ("PyList_Extend", None, (), ""), ("PyObject_GetIter", O, (O,), ""), ("PyUnicode_Join", O, (O, O), None), ("PySet_New", O, (O,), ""), ("PyFrozenSet_New", O, (O,), ""),
        ("PyObject_IsInstance", I, (O, O), None), ("PyDict_MergeFromSeq2", I, (), None)):
    if res is None or sig is None:
        continue
    API[name] = (capi(name, res, *args), sig)
JOIN = capi("PyUnicode_Join", O, O, O)
MERGE = capi("PyDict_MergeFromSeq2", I, O, O, I)
ITERNEXT = capi("PyIter_Next", ctypes.c_void_p, O)
DECREF = capi("Py_DecRef", None, ctypes.c_void_p)


class SubList(list):
    """What an instance of a subclass of a container is compared with: subclasses reach some slots in another way."""


def star(*a, **k):
    return a, k


def unpack3(x):
    a, b, c = x
    return a, b, c


def unpack_star(x):
    a, *b, c = x
    return a, b, c


def assign_slice(x, a, b, step):
    t = list(range(7))
    t[a:b:step] = x
    return t


def extend_list(x):
    t = [1]
    t += x
    t.extend(x)
    return t


def shuffle(x, seed):
    random.Random(seed).shuffle(x)


def for_else(x):
    out = []
    for i, v in enumerate(x):
        if i == 5:
            break
        out.append(v)
    else:
        out.append("else")
    return out


def pull(x, n):
    """The iterator, through the C API."""
    it = API["PyObject_GetIter"][0](x)
    out = []
    for _ in range(n):
        p = ITERNEXT(it)
        if p is None:
            out.append("end")
        else:
            out.append(ctypes.cast(p, O).value)
            DECREF(p)
    return out


def abcs(x):
    A = collections.abc
    return [isinstance(x, t) for t in (A.Sized, A.Iterable, A.Container, A.Reversible, A.Collection, A.Hashable, A.Callable, A.Iterator, A.Awaitable)]


def merge_pairs(x):
    d = {}
    MERGE(d, x, 1)
    return list(d.items())


def swap_all(x):
    for i in range(len(x) // 2):
        x[i], x[~i] = x[~i], x[i]


def pop_all(x):
    out = []
    while x:
        out.append(x.pop())
    return out


def rotate(x, n):
    if len(x):
        n %= len(x)
        x[:] = x[n:] + x[:n]


PY = {
    "sorted": (lambda x: sorted(x), ""), "sorted_rev": (lambda x: sorted(x, reverse=True), ""), "sorted_key": (lambda x: sorted(x, key=repr), ""),
    "sum": (lambda x: sum(x), ""), "min": (lambda x: min(x), ""), "max": (lambda x: max(x), ""), "min_default": (lambda x: min(x, default="d"), ""),
    "max_key": (lambda x: max(x, key=repr), ""), "any": (any, ""), "all": (all, ""), "list": (list, ""), "tuple": (tuple, ""), "set": (lambda x: set(x), ""),
    "frozenset": (frozenset, ""), "enumerate": (lambda x: list(enumerate(x, 3)), ""), "zip": (lambda x: list(zip(x, x)), ""),
    "zip_strict": (lambda x, o: list(zip(x, o, strict=True)), "o"), "map": (lambda x: list(map(repr, x)), ""), "map2": (lambda x, o: list(map(star, x, o)), "o"),
    "filter": (lambda x: list(filter(None, x)), ""), "reversed": (lambda x: list(reversed(x)), ""), "star": (lambda x: star(*x), ""), "star2": (lambda x: star(*x, 1, *x), ""),
    "display": (lambda x: ([*x, 1, *x], (*x,)), ""), "set_display": (lambda x: {*x}, ""), "unpack3": (unpack3, ""), "unpack_star": (unpack_star, ""),
    "comprehension": (lambda x: [(v, w) for v in x for w in x[:2]], ""), "generator": (lambda x: list(v for v in x), ""), "dict_comp": (lambda x: {repr(v): v for v in x}, ""),
    "for_else": (for_else, ""), "iter": (lambda x: [next(it := iter(x), "e"), next(it, "e")], ""), "pull": (pull, "n"), "sentinel": (lambda x: list(iter(iter(x).__next__, None)), ""),
    "assign_slice": (lambda x, a, b: assign_slice(x, a, b, None), "ii"), "assign_step": (lambda x, s: assign_slice(x, None, None, s), "n"), "extend_list": (extend_list, ""),
    "join": (lambda x: ",".join(x), ""), "capi_join": (lambda x: JOIN("-", x), ""), "bytes_join": (lambda x: b",".join(x), ""), "format_item": (lambda x: "{0[0]} {0[2]!r}".format(x), ""),
    "format_attr": (lambda x, i: ("{0[%d]}" % i).format(x), "p"), "percent": (lambda x: "%s %r" % (x, x), ""), "percent_d": (lambda x: "%d" % x, ""), "fstring": (lambda x: f"{x!r:>30}|{x}|{x!a}", ""),
    "translate": (lambda x: "\0\1\2\3".translate(x), ""), "deque": (lambda x: list(collections.deque(x, 4)), ""), "counter": (lambda x: sorted(collections.Counter(map(repr, x)).items()), ""),
    "fromkeys": (lambda x: dict.fromkeys(x, 0), ""), "userlist": (lambda x: collections.UserList(x).data, ""), "chain": (lambda x: list(itertools.chain(x, (0,), x)), ""),
    "islice": (lambda x, a, n: list(itertools.islice(x, a, None, n)), "pn"), "accumulate": (lambda x: list(itertools.accumulate(x, lambda a, b: b)), ""), "pairwise": (lambda x: list(itertools.pairwise(x)), ""),
    "batched": (lambda x: list(itertools.batched(x, 3)), ""), "cycle": (lambda x: list(itertools.islice(itertools.cycle(x), 20)), ""), "combinations": (lambda x: list(itertools.combinations(x[:6], 2)), ""),
    "product": (lambda x: list(itertools.product(x[:3], repeat=2)), ""), "zip_longest": (lambda x, o: list(itertools.zip_longest(x, o)), "o"), "groupby": (lambda x: [(k, list(g)) for k, g in itertools.groupby(x)], ""),
    "tee": (lambda x: [list(t) for t in itertools.tee(x, 3)], ""), "reduce": (lambda x: functools.reduce(lambda a, b: (a, b), x), ""), "cache": (lambda x: functools.cache(star)(x), ""),
    "op_contains": (operator.contains, "v"), "op_countOf": (operator.countOf, "v"), "op_indexOf": (operator.indexOf, "v"), "op_concat": (operator.concat, "l"),
    "op_iconcat": (operator.iconcat, "o"), "op_imul": (operator.imul, "N"), "op_iadd": (operator.iadd, "o"), "op_getitem": (operator.getitem, "k"), "op_setitem": (operator.setitem, "Iv"),
    "op_delitem": (operator.delitem, "k"), "op_hint": (operator.length_hint, ""), "op_truth": (operator.truth, ""), "itemgetter": (lambda x, a, b: operator.itemgetter(a, b)(x), "ii"),
    "op_lt": (operator.lt, "l"), "op_eq": (operator.eq, "l"), "op_index": (operator.index, ""), "merge": (lambda x: list(heapq.merge(x, x)), ""), "nlargest": (lambda x, n: heapq.nlargest(n, x), "n"),
    "nsmallest": (lambda x, n: heapq.nsmallest(n, x, key=repr), "n"), "mean": (lambda x: statistics.mean(x), ""), "median": (lambda x: statistics.median(x), ""), "mode": (lambda x: statistics.mode(x), ""),
    "prod": (lambda x: math.prod(x), ""), "fsum": (lambda x: math.fsum(x), ""), "gcd": (lambda x: math.gcd(*x), ""), "dist": (lambda x: math.dist(x, x), ""), "sumprod": (lambda x: math.sumprod(x, x), ""),
    "shuffle": (shuffle, "p"), "choice": (lambda x, s: random.Random(s).choice(x), "p"), "choices": (lambda x, s: random.Random(s).choices(x, k=4), "p"),
    "bisect_left": (lambda x, v: bisect.bisect_left(x, v), "v"), "bisect_right": (lambda x, v, a: bisect.bisect_right(x, v, a), "vp"), "bisect_hi": (lambda x, v, a, b: bisect.bisect(x, v, a, b), "vpi"),
    "bisect_key": (lambda x, v: bisect.bisect_left(x, repr(v), key=repr), "v"), "insort": (lambda x, v: bisect.insort(x, v), "v"), "insort_left": (lambda x, v: bisect.insort_left(x, v), "v"),
    "array_q": (lambda x: array.array("q", x), ""), "array_extend": (lambda x: (t := array.array("q", [1]), t.extend(x))[0], ""), "ctypes": (lambda x: list((ctypes.c_longlong * len(x))(*x)), ""),
    "dict": (lambda x: dict(x), ""), "dict_of": (lambda x: dict([x]), ""), "dict_pairs": (lambda x: dict([x[:2], x[1:3]]), ""), "merge_pairs": (merge_pairs, ""), "dict_update": (lambda x: {1: 2}.update(x), ""),
    "set_ops": (lambda x: sorted(map(repr, {1, 2}.union(x))), ""), "issubset": (lambda x: frozenset(range(5)).issuperset(x), ""), "isdisjoint": (lambda x: {3}.isdisjoint(x), ""), "abcs": (abcs, ""), "swap_all": (swap_all, ""), "rotate": (rotate, "i"),
    "pop_all": (pop_all, ""), "in_tuple": (lambda x: (1, x).index(x), ""), "hash": (hash, ""), "dict_key": (lambda x: {x: 1}, ""), "int": (int, ""), "float": (float, ""), "call": (lambda x: x(), ""), "next": (next, ""),
    "await": (lambda x: x.__await__(), ""), "neg": (operator.neg, ""), "sub": (operator.sub, "l"), "isinstance": (lambda x: isinstance(1, x), ""), "range": (lambda x: range(x), ""), "slice": (lambda x: [1, 2][x:], ""),
    "index_list": (lambda x: [1, 2][x], ""), "divmod": (lambda x: divmod(x, 2), ""), "sizeof": (lambda x: x.__sizeof__() > 0, ""), "min2": (lambda x, l: min(x, l) is x, "l"), "sorted_of": (lambda x, l: [list(t) for t in sorted([x, l])], "l"),
    "unbound": (lambda x, v: type(x).append(x, v), "v"), "unbound_len": (lambda x: type(x).__len__(x), ""), "getattr": (lambda x, i: getattr(x, "__getitem__")(i), "i"), "dunder_set": (lambda x, i, v: x.__setitem__(i, v), "iv"),
    "dunder_del": (lambda x, i: x.__delitem__(i), "i"), "dunder_contains": (lambda x, v: x.__contains__(v), "v"), "dunder_eq": (lambda x, l: x.__eq__(l), "l"), "dunder_mul": (lambda x, n: x.__mul__(n), "n"), "dunder_rmul": (lambda x, n: x.__rmul__(n), "n"),
    "dunder_iadd": (lambda x, o: x.__iadd__(o), "o"), "dunder_imul": (lambda x, n: x.__imul__(n), "n"), "dunder_hash": (lambda x: x.__hash__ is None, ""), "index_iter": (lambda x: [x[i] for i in range(-len(x), len(x))], ""),
    "out": (lambda x, i: x[len(x) + i], "p"), "below": (lambda x, i: x[-len(x) - 1 - i], "p"), "cut": (lambda x: [x[:-1], x[1:], x[::2], x[::-1]], ""), "print": (lambda x: str([x]), ""), "self_zip": (lambda x: list(zip(*[iter(x)] * 2)), ""),
}
# bytes() and the like of an int array list take its buffer, which a list doesn't have
BUFFERLESS = {"bytes": (lambda x: bytes(x), ""), "bytearray": (lambda x: bytearray(x), ""), "from_bytes": (lambda x: int.from_bytes(x, "big"), ""),
              "bytes_in": (lambda x: bytearray(b"ab").extend(x), "")}
ALL = {**{"c:" + k: v for k, v in API.items()}, **PY, **BUFFERLESS}
# these go through bytes or a buffer if there is one
SKIP = dict.fromkeys(("IAL", "BIAL"), {*BUFFERLESS, "c:PyNumber_Long", "c:PyNumber_Float", "int", "float"})
NAMES = {c: tuple(n for n in ALL if n not in SKIP.get(c, ())) for c in CLASSES}


@gen.cached
def values(cls, profile):
    if cls in INTS:
        lo, hi = RANGE[cls]
        return st.one_of(st.integers(-3, 3), st.integers(0, 40), st.integers(lo, hi), gen.sampled((lo, hi, 255, 256, -1)))
    return {"ints": st.integers(-3, 9), "strs": st.text("abc", max_size=2), "pairs": st.lists(st.integers(0, 3), min_size=2, max_size=2),
            "mixed": st.one_of(st.integers(-2, 3), st.text("ab", max_size=1), st.none(), st.booleans(), st.sampled_from([0.5, 2.0, -0.0]), st.lists(st.integers(0, 1), max_size=2))}[profile]


@st.composite
def cases(draw):
    cls = draw(gen.sampled(tuple(CLASSES)))
    profile = "ints" if cls in INTS else draw(gen.sampled(("ints", "strs", "mixed", "mixed", "pairs")))
    v = values(cls, profile)
    vals = draw(st.lists(v, max_size=draw(gen.sampled((3, 6, 12, 60)))))
    n = len(vals)
    index = st.one_of(st.integers(-n - 3, n + 3), st.integers(-n - 3, n + 3), gen.sampled((-1, 0, n - 1, n, -n, -n - 1, -n - 2, -2 * n, -2 * n - 1, 2 * n, MIN, MAX, MIN + 1, MIN + n, -2**31, 2**32, -2**32)))
    part = {"i": index, "p": st.integers(0, 12), "n": st.integers(-1, 4), "N": st.integers(-1, 4), "v": v, "b": st.just("key"), "c": st.integers(0, 5),
            "I": index, "k": st.one_of(index, st.lists(st.one_of(st.none(), st.integers(-n - 2, n + 2)), min_size=3, max_size=3)),
            "l": st.tuples(gen.sampled(("list", "same", "self")), st.lists(v, max_size=4)).map(list),
            "o": st.tuples(gen.sampled(("list", "same", "self", "tuple", "iter", "prefix")), st.lists(v, max_size=4)).map(list)}
    op = gen.sampled(NAMES[cls]).flatmap(lambda name: st.tuples(st.just(name), *[part[s] for s in ALL[name][1]]).map(list))
    return {"cls": cls, "sub": draw(gen.sampled((0, 0, 0, 1))), "profile": profile, "vals": vals, "ops": draw(st.lists(op, min_size=1, max_size=12))}


def build(cls, sub, vals):
    return (SUBCLASSES if sub else CLASSES)[cls](vals)


def argument(kind, a, me, make):
    """One argument for me, a container or a list; make builds another of the same class."""
    if kind in "ol":
        if a[0] == "self":
            return me
        if a[0] == "same":
            return make(a[1])
        if a[0] == "prefix":
            return make(list(me)[:2])
        return {"list": list, "tuple": tuple, "iter": iter}[a[0]](a[1])
    if kind == "b":
        return a.encode()
    if kind in "kI":
        if isinstance(a, list):
            if a[2] == 0:
                a = [a[0], a[1], None]
            return slice(*a)
        return a
    return a


def plain(r, depth=0):
    """A result without the classes of containers."""
    if isinstance(r, (list, *ALL_TYPES)):
        return ["L"] + ([plain(t, depth + 1) for t in r] if depth < 4 else ["..."])
    if type(r) is tuple:
        return ("T",) + tuple(plain(t, depth + 1) for t in r)
    if isinstance(r, dict):
        return {"D": [(plain(k, depth + 1), plain(v, depth + 1)) for k, v in r.items()]}
    if isinstance(r, float):
        return ("F", repr(r))
    if isinstance(r, (set, frozenset)):
        return (type(r).__name__, sorted(map(repr, r)))
    if isinstance(r, (array.array, bool, int, str, bytes, bytearray)) or r is None:
        return (type(r).__name__, repr(r))
    if hasattr(r, "__next__"):
        return ("iterator", [plain(t, depth + 1) for t in itertools.islice(r, 200)])
    return ("?", type(r).__name__, repr(r)[:200])


def attempt(f, x, args):
    try:
        return ("value", f(x, *args))
    except Exception as e:
        return ("exception", e)


class C28:
    id = "C28"
    per_round = 400

    def strategy(self, tier):
        return cases()

    def enumerated(self, tier):
        src = [["list", [1]], ["same", [2, 1]], ["self", []], ["tuple", [3]], ["iter", [1, 2]], ["prefix", []]]
        for cls in CLASSES:
            for profile in ("ints",) if cls in INTS else ("ints", "strs", "pairs", "mixed"):
                one = {"ints": 1, "strs": "a", "pairs": [1, 2], "mixed": None}[profile]
                contents = {"ints": [[], [1], [3, 1, 2], [0, 1, 2, 3, 4, 5, 5, 1]], "strs": [[], ["a"], ["b", "a", "ab"]], "pairs": [[[1, 2]], [[0, 1], [1, 1]]],
                            "mixed": [[None, 1, "a"], [1, True, 1.0, 2, 0.5]]}[profile]
                sources = [[k, [one] * len(v)] for k, v in src]
                for vals in contents:
                    n = len(vals)
                    idx = sorted({0, 1, n - 1, n, n + 1, -1, -n, -n - 1, -n - 2, -2 * n, -2 * n - 1, MIN, MAX, MIN + n})
                    choice = {"i": idx, "p": (0, 1, 5), "n": (-1, 0, 1, 3), "N": (-1, 0, 1, 3), "v": [one] + vals[:1], "b": ["key"], "c": range(6), "I": idx,
                              "k": idx + [[None, None, None], [1, None, 2], [None, None, -1], [-2, 9, 1]], "l": sources[:3], "o": sources}
                    for name in NAMES[cls]:
                        combos = list(itertools.product(*[choice[s] for s in ALL[name][1]]))
                        for combo in combos[::max(1, len(combos) // 40)]:
                            yield {"cls": cls, "sub": 0, "profile": profile, "vals": vals, "ops": [[name, *combo], ["list"], [name, *combo]]}

    def run(self, case, ctx):
        cls = case["cls"]
        sub = case["sub"]
        names = NAMES.get(cls)
        if names is None or not isinstance(case["vals"], list):
            raise Invalid("class")
        x = build(cls, sub, case["vals"])
        m = (SubList if sub else list)(case["vals"])
        compared = 0
        for op in case["ops"]:
            name = op[0]
            if name not in names or len(op) - 1 != len(ALL[name][1]):
                raise Invalid("operation")
            f, sig = ALL[name]
            if sub and any(s == "l" and a[0] == "self" for s, a in zip(sig, op[1:])):
                continue                  # + may refuse instances of subclasses
            if len(m) > 400 and name not in ("list", "c:PySequence_DelSlice", "pop_all"):
                continue
            try:
                am = [argument(s, a, m, list) for s, a in zip(sig, op[1:])]
                ax = [argument(s, a, x, CLASSES[cls]) for s, a in zip(sig, op[1:])]
            except (TypeError, KeyError, AttributeError, OverflowError):
                raise Invalid("argument")
            if any(type(a) in (list, SubList, tuple, type(iter([]))) and any(a is t for t in m) for a in am):
                continue
            if any(s in "v" and a.__class__ not in (int, float, str, list, bool, type(None)) for s, a in zip(sig, am)):
                raise Invalid("element")
            before = len(m)
            want = attempt(f, m, am)
            got = attempt(f, x, ax)
            ctx.label("op:" + name)
            where = "%s%r of a %s of %d elements" % (name, tuple(op[1:]), cls, before)
            self.compare(cls, name, want, got, where)
            if list(map(id, x) if cls not in INTS else x) != list(map(id, m) if cls not in INTS else m) and plain(x) != plain(m):
                raise Violation("%s left %r, a list %r" % (where, list(x)[:50], m[:50]))
            if len(x) != len(m):
                raise Violation("%s left len %d, a list has %d" % (where, len(x), len(m)))
            if want[0] == "value" and want[1] is m and got[1] is not x and name != "c:PySequence_Fast":
                raise Violation("%s did not return the container itself" % where)
            ctx.label("exception" if want[0] == "exception" else "value")
            compared += 1
        ctx.nt(compared > 0 and len(case["vals"]) > 0)

    @staticmethod
    def compare(cls, name, want, got, where):
        if want[0] != got[0]:
            raise Violation("%s gave %s %r, for a list %s %r" % (where, *got, *want))
        if want[0] == "exception":
            a, b = want[1], got[1]
            if type(a) is not type(b):
                raise Violation("%s raised %r, for a list %r" % (where, b, a))
            return
        a, b = plain(want[1]), plain(got[1])
        if a != b:
            raise Violation("%s gave %r, for a list %r" % (where, b, a))


CHECK = C28()
