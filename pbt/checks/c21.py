"""C21: observers report the content.

A case describes a structure of nested containers (each may contain any of
those around it, also itself) and mutations; it is built twice, once from the
containers and once from lists, and both are observed in every way."""
from hypothesis import strategies as st

from pbt import gen
from pbt.cont import CLASSES, INTS, RANGE, SUBCLASSES, Boom, Invalid, IntSub, Violation

LEAVES = (None, True, 1.5, -0.0, float("nan"), float("inf"), "", "a'b", 'q"\'', "\n\t\0", "\u00e9\u4e2d\U0001f600\ud800", b"\x00'", (), (1,), {}, {"k": 1},
          2**70, -1, 0, 3 + 4j, Ellipsis, int, range(3), frozenset((1,)))
KINDS = ("OAL", "OLL", "list", "tuple", "dict", "OAL", "OLL", "SOAL", "SOLL", "IAL", "BIAL", "ILL")


class BadRepr:
    def __repr__(self):
        raise Boom("repr")


class NoStr:
    def __repr__(self):
        return 5


class OnlyStr:
    """repr and str differ: a list uses repr."""

    def __repr__(self):
        return "<r>"

    def __str__(self):
        return "<s>"


SPECIAL = (BadRepr(), NoStr(), OnlyStr())


@gen.cached
def ints(cls):
    lo, hi = RANGE[cls]
    return st.one_of(st.integers(lo, hi), st.integers(-2, 2), gen.sampled((lo, hi, lo + 1, hi - 1, -1, 0, 10**9, -10**9, 2**30, -2**30, 255, 256, 257)))


@gen.cached
def nodes():
    leaf = st.one_of(st.integers(0, len(LEAVES) - 1).map(lambda k: ["leaf", k]), st.integers(0, 5).map(lambda k: ["up", k]),
                     st.integers(-2**40, 2**40).map(lambda k: ["int", k]), st.just(["sp", 2]),
                     st.text(max_size=6).map(lambda t: ["str", t]))
    return st.recursive(leaf, lambda s: st.tuples(st.sampled_from(KINDS), st.lists(s, max_size=5)).map(list), max_leaves=14)


@st.composite
def cases(draw):
    cls = draw(gen.sampled(tuple(CLASSES)))
    case = {"cls": cls, "sub": draw(gen.sampled((0, 0, 0, 1)))}
    if cls in INTS:
        case["items"] = draw(st.lists(ints(cls), max_size=12)) * draw(gen.sampled((1,) * 24 + (5,) * 6 + (40,) * 6 + (400, 400, 6000)))
        more = ints(cls)
    else:
        case["items"] = draw(st.lists(nodes(), max_size=6)) + draw(gen.sampled((None,) * 12 + (0, 1)).map(lambda k: [] if k is None else [["sp", k]]))
        more = nodes()
    case["ops"] = draw(st.lists(st.one_of(st.tuples(st.just("append"), more).map(list), st.tuples(st.just("insert"), st.integers(-3, 9), more).map(list),
                                          gen.sampled(("pop", "pop0", "clear", "reverse", "del", "mul", "ext", "self", "imul0", "init")).map(lambda k: [k])),
                                max_size=5))
    if draw(gen.sampled((0,) * 30 + (1,))):
        case["deep"] = draw(st.sampled_from([10, 150, 900, 4000, 50000]))
    return case


def outcome(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("raised", type(e), str(e) if isinstance(e, Boom) else "")


OBSERVERS = {
    "repr": repr, "str": str, "format": lambda x: format(x), "f-string": lambda x: f"{x} {x!r:>3}", "percent": lambda x: "%s|%r" % (x, x),
    "len": len, "bool": bool, "not": lambda x: not x, "branch": lambda x: 1 if x else 0, "ascii": ascii, "__len__": lambda x: x.__len__(),
}
HASHES = {"hash": hash, "set": lambda x: {x}, "dict key": lambda x: {x: 1}, "dict lookup": lambda x: {}.get(x), "frozenset": lambda x: frozenset([x])}


class C21:
    id = "C21"

    def strategy(self, tier):
        return cases()

    def enumerated(self, tier):
        for cls in CLASSES:
            for sub in (0, 1):
                for n in (0, 1, 2, 3, 9, 100, 5000, 9000, 70000):
                    items = list(range(-(n // 2), n - n // 2))
                    yield {"cls": cls, "sub": sub, "items": items if cls in INTS else [["int", v] for v in items], "ops": [["pop"], ["ext"], ["clear"], ["init"]]}
            if cls not in INTS:
                for k in range(len(LEAVES)):
                    yield {"cls": cls, "sub": 0, "items": [["leaf", k]], "ops": []}
                for k in range(len(SPECIAL)):
                    for at in range(4):
                        yield {"cls": cls, "sub": 0, "items": [["int", 1]] * at + [["sp", k]] + [["int", 2]] * (3 - at), "ops": []}
                for kind in sorted(set(KINDS)):
                    for up in range(3):
                        yield {"cls": cls, "sub": 0, "items": [[kind, [["up", up], ["int", 1], [kind, [["up", up], ["up", up + 1]]]]], ["up", 0]], "ops": [["self"], ["append", ["up", 0]]]}
                for d in (10, 150, 900, 4000, 50000, 300000):
                    yield {"cls": cls, "sub": 0, "items": [["int", 1]], "ops": [], "deep": d}

    def build(self, node, around):
        """(object made of containers, object made of lists)"""
        kind, v = node[0], node[1]
        if kind == "leaf":
            x = LEAVES[v]
            return x, x
        if kind in ("int", "str"):
            return v, v
        if kind == "sp":
            return SPECIAL[v], SPECIAL[v]
        if kind == "up":
            return around[-1 - v % len(around)]
        if kind in ("OAL", "OLL", "SOAL", "SOLL"):
            a = (SUBCLASSES[kind[1:]] if kind[0] == "S" else CLASSES[kind])()
            m = []
            for n in v:
                x, y = self.build(n, around + [(a, m)])
                a.append(x)
                m.append(y)
            return a, m
        if kind == "list":
            a, m = [], []
            for n in v:
                x, y = self.build(n, around + [(a, m)])
                a.append(x)
                m.append(y)
            return a, m
        if kind == "tuple":
            p = [self.build(n, around) for n in v]
            return tuple(x for x, _ in p), tuple(y for _, y in p)
        if kind == "dict":
            a, m = {}, {}
            for k, n in enumerate(v):
                a[k], m[k] = self.build(n, around + [(a, m)])
            return a, m
        if kind in INTS:
            items = [len(v), -1, 2**31 - 1][:len(v)]
            return CLASSES[kind](items), items
        raise Invalid("node")

    def run(self, case, ctx):
        if "deep" in case:
            return self.deep(case, ctx)
        name = case["cls"]
        cls = SUBCLASSES[name] if case["sub"] else CLASSES[name]
        x, m = cls(), []
        isint = name in INTS

        def make(node):
            if isint:
                if not isinstance(node, int):
                    raise Invalid("item")
                return node, node
            return self.build(node, [(x, m)])

        for node in case["items"]:
            a, b = make(node)
            x.append(a)
            m.append(b)
        mine = [a for a in x]      # what x must contain, by identity
        self.observe(x, m, mine, isint, ctx, "built")
        for op in case["ops"]:
            if op[0] == "append":
                a, b = make(op[1])
                x.append(a)
                m.append(b)
                mine.append(a)
            elif op[0] == "insert":
                a, b = make(op[2])
                x.insert(op[1], a)
                m.insert(op[1], b)
                mine.insert(op[1], a)
            elif op[0] == "self":
                if isint:
                    continue
                x.append(x)
                m.append(m)
                mine.append(x)
            elif op[0] in ("pop", "pop0", "del"):
                if m:
                    k = 0 if op[0] == "pop0" else len(m) - 1 if op[0] == "pop" else len(m) // 2
                    if op[0] == "del":
                        del x[k]
                    else:
                        x.pop(k)
                    del m[k], mine[k]
            elif op[0] == "clear":
                x.clear()
                m.clear()
                mine.clear()
            elif op[0] == "reverse":
                x.reverse()
                m.reverse()
                mine.reverse()
            elif op[0] in ("mul", "imul0"):
                k = 2 if op[0] == "mul" else 0
                if len(m) > 200:
                    continue
                x *= k
                m *= k
                mine *= k
            elif op[0] == "ext":
                if len(m) > 200:
                    continue
                x.extend(mine[:])
                m.extend(m[:])
                mine.extend(mine[:])
            elif op[0] == "init":
                x.__init__(mine[:3])
                m[:] = m[:3]
                mine[:] = mine[:3]
            else:
                raise Invalid("op")
            self.observe(x, m, mine, isint, ctx, op[0])
        ctx.label(name)
        ctx.nt(len(m) > 1 or len(case["ops"]) > 1)

    def observe(self, x, m, mine, isint, ctx, when):
        for name, f in OBSERVERS.items():
            got, want = outcome(f, x), outcome(f, m)
            if want[0] == "raised":
                ctx.label("failing " + name)
            if got[:2] != want[:2] or (got[0] == "raised" and got[2] != want[2]) or type(got[1]) is not type(want[1]):
                raise Violation("%s, after %s: %s, the list gives %s" % (name, when, str(got)[:600], str(want)[:600]))
        for name, f in HASHES.items():
            got = outcome(f, x)
            if got[:2] != ("raised", TypeError):
                raise Violation("%s, after %s: %s, not TypeError" % (name, when, str(got)[:300]))
        one, two = x.to_list(), x.to_list()
        if type(one) is not list or one is two:
            raise Violation("to_list gave %s, twice the same object: %s" % (type(one), one is two))
        same = len(one) == len(mine) and all((a == b and type(a) is int) if isint else a is b for a, b in zip(one, mine))
        if not same:
            raise Violation("to_list after %s: %s, not %s" % (when, outcome(repr, one), outcome(repr, mine)))
        one.append(1)
        if one:
            one[0] = None
        if x.to_list() != two and not any(v is not v or v != v for v in two):
            raise Violation("changing the result of to_list changed the container")
        if len(x) != len(mine):
            raise Violation("observing changed the length")

    def deep(self, case, ctx):
        d = case["deep"]
        if not 0 <= d <= 400000:
            raise Invalid("deep")
        if case["cls"] in INTS:
            return
        cls = CLASSES[case["cls"]]
        x, m = cls([1]), [1]
        for _ in range(d):
            x, m = cls([x]), [m]
        for f in (repr, str):
            got, want = outcome(f, x), outcome(f, m)
            # a container may need more stack per level than a list
            if got[0] == "ok" and want[0] == "ok":
                if got != want:
                    raise Violation("%s of %d nested containers differs" % (f.__name__, d))
            elif got[0] == "raised" and got[1] is not RecursionError:
                raise Violation("%s of %d nested containers: %s" % (f.__name__, d, got))
            elif got[0] == "raised" and d <= 150:
                raise Violation("%s of only %d nested containers: %s" % (f.__name__, d, got))
        if len(x) != 1 or not x:
            raise Violation("broken after repr")
        ctx.label("deep:%s" % got[0])
        del x
        ctx.nt(True)


CHECK = C21()
