"""Hypothesis strategies for cases of the container language."""
from functools import lru_cache

from hypothesis import strategies as st

# Building a strategy is slow, and far more of them are asked for than differ
cached = lru_cache(maxsize=20000)

INTS = ("IAL", "BIAL", "ILL")
OBJS = ("OAL", "OLL")
ARRAYS = ("IAL", "BIAL", "OAL")
ALL = INTS + OBJS
RANGE = {"IAL": (-2**31, 2**31 - 1), "ILL": (-2**31, 2**31 - 1), "BIAL": (-2**63, 2**63 - 1)}

B32 = [0, 1, -1, 2, -2, 127, -128, 128, 255, 256, 257, -5, -6, 32767, -32768, 65535, 65536, 2**30 - 1, 2**30, -2**30,
       2**30 + 1, 2**31 - 1, 2**31 - 2, -2**31, -2**31 + 1, -2**30 - 1]
B64 = B32 + [2**31, 2**31 + 1, -2**31 - 1, 2**32 - 1, 2**32, 2**32 + 1, -2**32, -2**32 - 1, 2**53, 2**60 - 1, 2**60,
             -2**60, 2**62, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1]

DEFAULT_POOL = [["i", 1], ["i", 2], ["i", 3], ["i", 300], ["i", 10**12], ["s", "a"], ["s", "b"], ["f", "1.0"], ["n"],
                ["o", 1], ["o", 1], ["o", 2], ["p"], ["l", [1]], ["t", [1, 2]], ["b", 1], ["o", 3], ["i", -7]]

small = st.integers(-4, 9)


@cached
def int_values(cls, hit=True):
    lo, hi = RANGE[cls]
    b = B64 if cls == "BIAL" else B32
    return st.one_of(small, small, small, st.sampled_from(b), st.integers(lo, hi)) if hit else \
        st.one_of(st.sampled_from(b), st.integers(lo, hi))


@cached
def values(cls):
    if cls in OBJS:
        return pool_values(len(DEFAULT_POOL))
    return int_values(cls)


pool_specs = st.one_of(
    st.builds(lambda n: ["i", n], st.one_of(small, st.integers(-2**70, 2**70))),
    st.builds(lambda n: ["o", n], st.integers(0, 3)),
    st.builds(lambda n: ["o", n], st.integers(0, 3)),
    st.builds(lambda s: ["s", s], st.text(max_size=3)),
    st.builds(lambda x: ["f", repr(x)], st.floats(allow_nan=False)),
    st.just(["n"]), st.just(["p"]), st.just(["b", 1]), st.just(["b", 0]),
    st.builds(lambda x: ["l", x], st.lists(small, max_size=3)),
    st.builds(lambda x: ["t", x], st.lists(small, max_size=3)),
    st.builds(lambda n: ["y", [n]], st.integers(0, 255)),
)
odd_specs = st.one_of(pool_specs, st.builds(lambda n: ["nb", n], st.integers(0, 2)), st.just(["nv"]), st.just(["ae"]),
                      st.just(["rz"]), st.just(["bb"]), st.just(["f", "nan"]), st.just(["f", "nan"]),
                      st.builds(lambda n: ["I", n], small))
odd_pools = st.lists(odd_specs, min_size=2, max_size=12)
homogeneous_pools = st.one_of(
    st.lists(st.builds(lambda n: ["o", n], st.integers(0, 4)), min_size=2, max_size=12),
    st.lists(st.builds(lambda n: ["i", n], st.one_of(small, st.integers(-2**70, 2**70))), min_size=2, max_size=12),
    st.lists(st.builds(lambda s: ["s", s], st.text(max_size=3)), min_size=2, max_size=12),
    st.lists(st.builds(lambda x: ["f", repr(x)], st.floats(allow_nan=False)), min_size=2, max_size=12),
    st.lists(st.builds(lambda x: ["t", x], st.lists(small, max_size=3)), min_size=2, max_size=12),
)
pools = st.one_of(st.just(DEFAULT_POOL), homogeneous_pools, st.lists(pool_specs, min_size=2, max_size=14))

sizes = st.one_of(st.integers(0, 6), st.integers(0, 20), st.integers(0, 70), st.integers(60, 300),
                  st.sampled_from([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257]))


# sizes where an implementation may switch to another way of doing things, and beyond
LARGE = (511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 16385, 32768, 32769,
         65535, 65536, 65537, 70000, 100000)
large_sizes = st.one_of(st.sampled_from(LARGE), st.integers(300, 3000), st.integers(300, 3000), st.integers(300, 20000))
ONE_IN_FORTY = st.integers(0, 39)


@cached
def lin(cls, n):
    return st.builds(lambda a, b, m: ["lin", n, a, b, m], st.integers(-7, 1009), st.integers(0, 100),
                     st.sampled_from([2, 5, 17, 100, 1009, 65537, 2**31 - 1]))


INT_CENTRE = (2**31 - 1) // 2
LARGE_POOL = [["o", i] for i in range(98)]


def large_bases(tier, classes=None, sizes=(601, 1025, 4099, 8195, 20003, 70003), more=(131075, 300007)):
    """Large containers for enumerated cases: (cls, n, case, v, absent) with v(i) the value at position i
    and a value that is not there.  The int containers hold distinct values; the containers of objects
    repeat 97 objects, a period that is in step with no power of two."""
    for cls in classes or ALL:
        for n in sizes + (more if tier != "quick" else ()):
            if cls in INTS:
                yield cls, n, {"cls": cls, "init": ["lin", n, 1, 0, 2**31 - 1]}, (lambda i: i - INT_CENTRE), -INT_CENTRE - 1
            else:
                yield cls, n, {"cls": cls, "pool": LARGE_POOL, "init": ["lin", n, 1, 0, 97]}, (lambda i: i % 97), 97


def large_places(n):
    return [0, 1, n // 2, 2 * n // 3, n - 9, n - 5, n - 2, n - 1]


@cached
def pool_values(k):
    return st.integers(0, k - 1)


@cached
def indices(n):
    """Positions of a list of about n elements, in and just out of range."""
    return st.one_of(st.integers(-3, 3), st.integers(-n - 2, n + 2), st.integers(-n - 2, n + 2),
                     st.sampled_from([0, -1, n - 1, n, -n, -n - 1, n // 2]))


FAR = [2**31 - 1, 2**31, 2**32, 2**32 + 1, -2**31, -2**32, -2**32 - 1, 2**63 - 1, -2**63 + 1, 2**33]
FARTHER = FAR + [-2**63, 2**63, 2**64, 2**64 + 1, -2**64, 2**100, -2**100]


@cached
def far_indices(n):
    return st.one_of(indices(n), indices(n), indices(n), indices(n), st.sampled_from(FARTHER))


@cached
def near_indices(n):
    return st.one_of(indices(n), indices(n), indices(n), indices(n), st.sampled_from(FAR))


@cached
def slices(n):
    ends = st.one_of(st.none(), indices(n), indices(n), st.sampled_from(FARTHER))
    steps = st.one_of(st.none(), st.none(), st.sampled_from([1, 1, 2, -1, -2, 3, -3, n or 1, -(n or 1), 2**63 - 1, -2**63 + 1, 2**70]),
                      st.integers(-5, 5).filter(bool))
    return st.tuples(ends, ends, steps).map(list)


@cached
def plain_slices(n):
    ends = st.one_of(st.none(), indices(n), indices(n))
    return st.tuples(ends, ends, st.sampled_from([None, None, None, 1])).map(list)


KINDS = ("list", "tuple", "gen", "iter", "dict", "hint0", "hintbig", "seq", "iterable", "listsub",
         "same", "IAL", "BIAL", "ILL", "OAL", "OLL", "sub")


@cached
def sources(cls, vals, max_size=6, kinds=KINDS, self_ok=True):
    s = st.tuples(st.sampled_from(kinds), st.lists(vals, max_size=max_size)).map(list)
    # now and then a long one
    s0, big = s, st.tuples(st.sampled_from(kinds), large_sizes.map(lambda n: min(n, 20000)).flatmap(lambda n: lin(cls, n))).map(list)
    s = ONE_IN_FORTY.flatmap(lambda k: s0 if k < 39 else big)
    if self_ok:
        return st.one_of(s, s, s, s, s, s, st.just(["self"]))
    return s


INT_KEYS = (None, None, None, "neg", "mod3", "mod7", "const", "abs", "str", "len", "tup", "float", "big", "id")
OBJ_KEYS = (None, None, "id", "const", "str", "okey", "ohash")


@cached
def sort_specs(cls):
    keys = INT_KEYS if cls in INTS else OBJ_KEYS
    return st.fixed_dictionaries({"r": st.sampled_from([None, False, True, 0, 1]), "k": st.sampled_from(keys)})


def cmd(name, *args):
    return st.tuples(st.just(name), *args).map(list)


@cached
def op_table(cls, n, vals):
    t = {
        "append": cmd("append", vals),
        "extend": cmd("extend", sources(cls, vals)),
        "insert": cmd("insert", near_indices(n), vals),
        "pop": cmd("pop"),
        "popi": cmd("popi", near_indices(n)),
        "remove": cmd("remove", vals),
        "clear": cmd("clear"),
        "reverse": cmd("reverse"),
        "sort": cmd("sort", sort_specs(cls)),
        "setitem": cmd("setitem", far_indices(n), vals),
        "delitem": cmd("delitem", far_indices(n)),
        "setslice": cmd("setslice", plain_slices(n), sources(cls, vals)),
        "setslicex": cmd("setslice", slices(n), sources(cls, vals)),
        "delslice": cmd("delslice", plain_slices(n)),
        "delslicex": cmd("delslice", slices(n)),
        "iadd": cmd("iadd", sources(cls, vals)),
        "imul": cmd("imul", st.integers(-1, 3)),
        "index": st.one_of(cmd("index", vals), cmd("index", vals, far_indices(n)),
                           cmd("index", vals, far_indices(n), far_indices(n))),
        "count": cmd("count", vals),
        "in": cmd("in", vals),
        "notin": cmd("notin", vals),
        "getitem": cmd("getitem", far_indices(n)),
        "getslice": cmd("getslice", slices(n)),
        "len": cmd("len"),
        "bool": cmd("bool"),
        "repr": cmd("repr"),
        "to_list": cmd("to_list"),
        "copy": cmd("copy"),
        "iter": cmd("iter"),
        "reversed": cmd("reversed"),
        "mul": cmd("mul", st.integers(-2, 4)),
        "add": cmd("add", sources(cls, vals, kinds=("list", "same"))),
    }
    if cls in ARRAYS:
        t["resize"] = cmd("resize", st.one_of(st.integers(0, n + 8), st.integers(0, 200)))
    return t


def pick(table, weights):
    return _pick(_Ref(table), tuple(sorted(weights.items())))


class _Ref:
    """A table (from the cache, so it lives on) as a key."""

    def __init__(self, table):
        self.table = table

    def __eq__(self, other):
        return self.table is other.table

    def __hash__(self):
        return id(self.table)


@cached
def _pick(ref, weights):
    """One operation; weights: {name: weight}."""
    table, weights = ref.table, dict(weights)
    names = [k for k, w in weights.items() for _ in range(w) if k in table]
    return st.sampled_from(names).flatmap(lambda k: table[k])


HOWS = ("list", "list", "append", "extend", "size", "insert0", "tuple", "gen", "seq", "same", "iterable", "hint0", "dict")


@cached
def exact_lists(vals, n):
    return st.lists(vals, min_size=n, max_size=n)


@cached
def sampled(xs):
    return st.sampled_from(xs)


ONE_IN_TEN = st.integers(0, 9)


@st.composite
def worlds(draw, classes=ALL, max_n=300, small_only=False, pool_strategy=None, hows=HOWS, large=0):
    """large: the size of the largest containers (one in forty is that large), or 0."""
    cls = draw(sampled(classes))
    case = {"cls": cls}
    vals = None
    if cls in OBJS:
        case["pool"] = draw(pool_strategy if pool_strategy is not None else pools)
        vals = pool_values(len(case["pool"]))
    else:
        vals = int_values(cls)
    n = min(draw(sizes), max_n)
    if large and draw(ONE_IN_FORTY) == 39:
        n = min(draw(large_sizes), large)
    if small_only:
        n = n % 8
    if n <= 12:
        case["init"] = draw(exact_lists(vals, n))
    else:
        case["init"] = draw(lin(cls, n))
    case["how"] = draw(sampled(hows))
    if n > 2000 and case["how"] == "insert0":
        case["how"] = "append"
    if draw(ONE_IN_TEN) == 0:
        case["sub"] = 1
    return case, n, vals
