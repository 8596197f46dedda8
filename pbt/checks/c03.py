"""C03: sort orders, permutes, is stable, and survives failing keys."""
from hypothesis import strategies as st

from pbt import gen
from pbt.cont import CLASSES, RANGE, SUBCLASSES, Obj
from pbt.engine import Invalid, Violation


class Boom(Exception):
    pass


class CmpObj:
    """Ordered by key; may raise or act at the n-th comparison."""
    __slots__ = ("key", "ctl")

    def __init__(self, key, ctl):
        self.key = key
        self.ctl = ctl

    def __lt__(self, other):
        self.ctl.tick()
        return self.key < other.key

    def __repr__(self):
        return "C%d" % self.key


class LtInt(int):
    pass


class Control:
    def __init__(self, at=None, kind="exc"):
        self.n = 0
        self.at = at
        self.kind = kind
        self.fired = False
        self.target = None
        self.ops = None

    def tick(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            if self.kind == "exc":
                raise Boom("call %d" % self.n)
            self.act()

    def act(self):
        t = self.target
        if self.kind == "append":
            t.append(self.filler)
        elif self.kind == "clear":
            t.clear()
        elif self.kind == "extend":
            t.extend([self.filler] * 20)
        elif self.kind == "insert":
            t.insert(0, self.filler)


def seq_values(spec):
    """["v", [...]] explicit; ["lin", n, a, b, m]; ["segs", [[n, start, step]...]]; ["mix", n, m] pseudo-random."""
    k = spec[0]
    if k == "v":
        return list(spec[1])
    if k == "lin":
        _, n, a, b, m = spec
        if not 0 <= n <= 4500000 or m <= 0:
            raise Invalid("n")
        return [(a * i + b) % m - m // 2 for i in range(n)]
    if k == "segs":
        out = []
        for n, start, step in spec[1]:
            if not 0 <= n <= 200000:
                raise Invalid("n")
            out += [start + i * step for i in range(n)]
        return out
    if k == "mix":
        _, n, m, s = spec
        if not 0 <= n <= 4500000 or m <= 0:
            raise Invalid("n")
        out = []
        x = (s * 2654435761 + 12345) & 0xFFFFFFFF
        for i in range(n):
            x = (x * 1103515245 + 12345 + (x >> 16)) & 0xFFFFFFFF
            out.append(((x >> 8) * 2654435761 & 0xFFFFFFFF) % m - m // 2)
        return out
    raise Invalid("seq")


OBJ_KINDS = ("int", "bigint", "mixint", "str", "ustr", "float", "tuple_int", "tuple_str", "tuple_mixed", "obj", "cmp",
             "bool", "bytes", "mixnum", "list", "intsub", "nan", "incomparable", "tuple_short")


def make_object(kind, v, ctl):
    if kind == "int":
        return v + (1 << 40) - (1 << 40) if -2**60 < v < 2**60 else v
    if kind == "bigint":
        return v * (1 << 65) + v % 3
    if kind == "mixint":
        return v if v % 2 else v * (1 << 33)
    if kind == "str":
        return "k%06d" % (v % 10**6) if v % 3 else "x" * (v % 5)
    if kind == "ustr":
        return chr(0x20 + v % 0x250) + str(v)
    if kind == "float":
        return v / 8.0 if v else -0.0
    if kind == "tuple_int":
        return (v % 4, v)
    if kind == "tuple_str":
        return ("abc"[v % 3], str(v))
    if kind == "tuple_mixed":
        return (v % 2, "ab"[v % 2], v / 2)
    if kind == "tuple_short":
        return tuple(range(v % 4)) if v % 5 else ()
    if kind == "obj":
        return Obj(v)
    if kind == "cmp":
        return CmpObj(v, ctl)
    if kind == "bool":
        return bool(v % 2)
    if kind == "bytes":
        return bytes([v % 256, v // 256 % 256])
    if kind == "mixnum":
        return v if v % 3 == 0 else v / 2.0 if v % 3 == 1 else bool(v % 2)
    if kind == "list":
        return [v % 3, v]
    if kind == "intsub":
        return LtInt(v)
    if kind == "nan":
        return float("nan") if v % 4 == 0 else float(v)
    if kind == "incomparable":
        return v if v % 7 else "s%d" % v
    raise Invalid("kind")


KEYS = {
    "neg": lambda x: -x, "mod3": lambda x: x % 3, "mod10": lambda x: x % 10, "const": lambda x: 1, "abs": abs,
    "str": str, "tup": lambda x: (x % 5, -x), "float": lambda x: x / 3, "big": lambda x: x << 70, "ident": lambda x: x,
    "div": lambda x: x // 10, "repr": repr, "tname": lambda x: type(x).__name__, "nonelt": lambda x: None,
}
INT_KEYS = ("neg", "mod3", "mod10", "const", "abs", "str", "tup", "float", "big", "ident", "div")
OBJ_KEYS = ("const", "repr", "ident", "tname")

sort_sizes = st.one_of(st.integers(0, 12), st.integers(0, 40), st.integers(0, 140), st.integers(0, 600),
                       st.sampled_from([1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024]))
big_sizes = st.one_of(st.sampled_from([4095, 4096, 4097, 4998, 4999, 5000, 5001, 5002, 5120, 8192, 9999, 10001]),
                      st.integers(1000, 12000))


@st.composite
def seqs(draw, cls, big):
    r = RANGE.get(cls, (-2**40, 2**40))
    form = draw(st.sampled_from(["v", "v", "lin", "segs", "segs", "mix", "mix"]))
    n = draw(big_sizes) if big else draw(sort_sizes)
    if form == "v" and not big:
        vals = st.one_of(gen.small, gen.small, st.sampled_from([v for v in gen.B64 if r[0] <= v <= r[1]]), st.integers(*r))
        return ["v", draw(st.lists(vals, min_size=min(n, 30), max_size=min(n, 30)))]
    if form == "lin":
        return ["lin", n, draw(st.integers(-50, 5000)), draw(st.integers(0, 99)), draw(st.sampled_from([1, 2, 3, 10, 257, 10007, 2**31 - 1]))]
    if form == "mix" or form == "v":
        return ["mix", n, draw(st.sampled_from([2, 3, 10, 100, 10**4, 10**6, 2**31])), draw(st.integers(0, 10**6))]
    k = draw(st.integers(1, 6))
    segs = []
    left = n
    for i in range(k):
        m = left if i == k - 1 else draw(st.integers(0, left))
        left -= m
        segs.append([m, draw(st.integers(-1000, 1000)), draw(st.sampled_from([0, 1, 1, -1, -1, 2, 3, -7]))])
    return ["segs", segs]


@st.composite
def cases(draw, tier):
    cls = draw(st.sampled_from(gen.ALL))
    big = draw(st.integers(0, 39 if tier == "quick" else 19)) == 0
    case = {"cls": cls, "seq": draw(seqs(cls, big)), "rev": draw(st.sampled_from([None, False, True, True, 0, 1, 2, [], [0]])),
            "sub": draw(st.integers(0, 9)) == 0}
    if cls in gen.OBJS:
        case["kind"] = draw(st.sampled_from(OBJ_KINDS))
        case["key"] = draw(st.sampled_from((None, None, None) + OBJ_KEYS + (INT_KEYS if case["kind"] in ("int", "mixint", "bigint") else ())))
    else:
        case["key"] = draw(st.sampled_from((None, None, None, None) + INT_KEYS))
    if not big and draw(st.integers(0, 4)) == 0 and (case["key"] or case.get("kind") == "cmp"):
        case["fault"] = [draw(st.integers(1, 60)), draw(st.sampled_from(["exc", "exc", "append", "clear", "extend", "insert"]))]
    return case


class C03:
    id = "C03"
    per_round = 300

    def strategy(self, tier):
        return cases(tier)

    def enumerated(self, tier):
        # all 0-1-2 sequences up to length 6, both directions
        import itertools
        for cls in gen.ALL:
            for n in range(0, 7):
                for t in itertools.product((2, 0, 1), repeat=n):
                    for rev in (False, True):
                        c = {"cls": cls, "seq": ["v", list(t)], "rev": rev, "key": None}
                        if cls in gen.OBJS:
                            c["kind"] = "obj"
                        yield c
        # every length around every threshold
        for cls in gen.ALL:
            for n in list(range(7, 140)) + [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4999, 5000, 5001, 5002, 6000, 10000, 20000]:
                for rev in (None, True):
                    for key in (None, "mod3", "neg"):
                        if n > 140 and (key == "neg"):
                            continue
                        c = {"cls": cls, "seq": ["mix", n, 10**6 if n % 2 else 50, n], "rev": rev, "key": key}
                        if cls in gen.OBJS:
                            c["kind"] = "int"
                        yield c

        for cls in gen.ALL:
            for n in (32768, 65536, 65537, 100000, 131073) + ((262145, 1000001, 4000000) if cls in ("IAL", "BIAL") and tier != "quick" else (600001,) if cls == "IAL" else ()):
                for seq in (["mix", n, 2**30, n], ["mix", n, 9, n], ["lin", n, -1, 7, 2**31 - 1]):
                    for rev in (None, True):
                        c = {"cls": cls, "seq": seq, "rev": rev, "key": None}
                        if cls in gen.OBJS:
                            c["kind"] = "int"
                        yield c

    def run(self, case, ctx):
        cls = case["cls"]
        if cls not in CLASSES:
            raise Invalid("class")
        ctl = Control()
        raw = seq_values(case["seq"])
        if cls in RANGE:
            lo, hi = RANGE[cls]
            if raw and not (lo <= min(raw) and max(raw) <= hi):
                raise Invalid("range")
            items = raw
            kind = "native"
        else:
            kind = case["kind"]
            items = [make_object(kind, v, ctl) for v in raw]
        n = len(items)
        T = (SUBCLASSES if case.get("sub") else CLASSES)[cls]
        x = T(items)
        fault = case.get("fault")
        key = case["key"]
        if key is not None and key not in KEYS:
            raise Invalid("key")
        calls = [0]
        plain_key = KEYS[key] if key else None
        kw = {}
        if case["rev"] is not None:
            kw["reverse"] = case["rev"]
        # --- what a list does (without faults)
        expected = list(items)
        exp_exc = None
        try:
            if plain_key:
                expected.sort(key=plain_key, **kw)
            else:
                expected.sort(**kw)
        except Exception as e:
            exp_exc = e
        # --- the container, with the fault if there is one
        ctl.n = 0
        use = Control(fault[0], fault[1]) if fault else ctl
        use.target = x
        use.filler = items[0] if items else 0
        if kind == "cmp":
            for it in items:
                it.ctl = use
        if plain_key:
            def wrapped(v):
                calls[0] += 1
                if kind != "cmp":
                    use.tick()
                return plain_key(v)
            kw["key"] = wrapped
        got_exc = None
        try:
            res = x.sort(**kw)
        except Exception as e:
            got_exc = e
            res = None
        if kind == "cmp":
            for it in items:
                it.ctl = ctl
        got = x.to_list()
        what = "%s.sort(reverse=%r, key=%s) of %d %s elements" % (cls, case["rev"], key, n, kind)
        # --- always a permutation of the same elements
        if kind == "native":
            if sorted(got) != sorted(items) or len(got) != n or (n and set(map(type, got)) != {int}):
                raise Violation("%s: not a permutation: %s from %s" % (what, short(got), short(items)))
        elif len(got) != n or sorted(map(id, got)) != sorted(map(id, items)):
            raise Violation("%s: not a permutation: %d elements, %s from %s" % (what, len(got), short(got), short(items)))
        if len(x) != n:
            raise Violation("%s: len is %d" % (what, len(x)))
        if use.fired:
            if fault[1] == "exc":
                if not isinstance(got_exc, Boom):
                    raise Violation("%s: an exception raised during the sort was replaced by %r" % (what, got_exc))
            elif not isinstance(got_exc, ValueError) and got_exc is not None and \
                    not (exp_exc is not None and isinstance(got_exc, type(exp_exc))):
                raise Violation("%s: modified during sort: %r" % (what, got_exc))
            elif got_exc is None and fault[1] in ("append", "extend", "insert") and n:
                raise Violation("%s: a modification during the sort was silently dropped" % what)
            ctx.label("fault:" + fault[1])
            ctx.nt(n > 1)
        elif exp_exc is not None:
            if got_exc is None or not isinstance(got_exc, type(exp_exc)):
                raise Violation("%s: %r, a list raises %r" % (what, got_exc, exp_exc))
            ctx.label("raises")
            ctx.nt(n > 1)
        else:
            if got_exc is not None:
                raise Violation("%s raised %r" % (what, got_exc))
            if res is not None:
                raise Violation("%s returned %r" % (what, res))
            if plain_key and calls[0] != n:
                raise Violation("%s: the key was called %d times" % (what, calls[0]))
            if kind != "nan" or key in ("const",):
                ok = got == expected if kind == "native" else all(a is b for a, b in zip(got, expected))
                if not ok:
                    i = next(i for i in range(n) if not (got[i] is expected[i] or (kind == "native" and got[i] == expected[i])))
                    raise Violation("%s: position %d holds %r, expected %r (result %s from %s)" %
                                    (what, i, got[i], expected[i], short(got), short(items)))
            ctx.nt(n > 1 and any(a is not b for a, b in zip(items, got)))
        # usable afterwards
        if n:
            x.append(items[0])
            y = x.pop()
            if y is not items[0] and y != items[0]:
                raise Violation("%s: unusable afterwards" % what)
            if kind != "native" and x[0] is not got[0]:
                raise Violation("%s: unusable afterwards" % what)
        ctx.label("class:" + cls)
        ctx.label("kind:" + kind)
        ctx.label("n:" + ("<8" if n < 8 else "<64" if n < 64 else "<1000" if n < 1000 else ">=1000"))


def short(xs):
    s = repr(xs)
    return s if len(s) < 300 else s[:280] + "..."


CHECK = C03()
