"""C04: comparisons are those of lists."""
import operator

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import CLASSES, Boom, ListSub, SUBCLASSES, World, run_both, spec_object
from pbt.bad import EXCS
from pbt.engine import Invalid, Violation

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
MIRROR = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
RIGHT = ("list", "list", "same", "same", "listsub", "sub", "IAL", "BIAL", "ILL", "OAL", "OLL", "self", "alias")
NONSEQ = {"none": lambda: None, "int": lambda: 5, "set": lambda: {1, 2}, "float": lambda: 1.5, "object": object,
          "gen": lambda: (i for i in (1, 2)), "fset": frozenset, "type": lambda: int, "func": lambda: len,
          "iter": lambda: iter([1, 2]), "slice": lambda: slice(1, 2), "dict": dict}


class BadSeq:
    """Answers as a sequence until it fails."""

    def __init__(self, items, size, bad_len, bad_item, exc):
        self.items = items
        self.size = size
        self.bad_len = bad_len
        self.bad_item = bad_item
        self.exc = exc
        self.failed = False

    def __len__(self):
        self.bad_len -= 1
        if self.bad_len < 0:
            self.failed = True
            raise self.exc
        return self.size

    def __getitem__(self, i):
        if i >= self.bad_item:
            self.failed = True
            raise self.exc
        return self.items[i]


@st.composite
def cases(draw):
    case, n, vals = draw(gen.worlds(max_n=150, pool_strategy=st.one_of(
        gen.odd_pools, gen.odd_pools, gen.homogeneous_pools, st.just(gen.DEFAULT_POOL)), hows=("list", "append", "gen"), large=100000))
    case["right"] = draw(st.sampled_from(RIGHT))
    obj = case["cls"] in gen.OBJS
    edits = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2, 3]))):
        kind = draw(st.sampled_from(["cut", "add", "set", "set", "set", "bump", "front", "dup", "type", "type", "all", "flip", "flip", "bit", "bit"]))
        pos = draw(st.integers(0, max(n, 1)))
        v = draw(vals) if obj else draw(st.one_of(vals.map(lambda v: ["i", v]), gen.odd_specs))
        edits.append([kind, pos, v])
    case["edits"] = edits
    return case


class C04:
    id = "C04"

    def strategy(self, tier):
        return st.one_of(cases(), cases(), cases(), cases(), st.fixed_dictionaries({
            "cls": st.sampled_from(gen.ALL), "nonseq": st.sampled_from(sorted(NONSEQ)), "n": st.integers(0, 4)}), st.fixed_dictionaries({
                "cls": st.sampled_from(gen.ALL), "badseq": st.integers(0, 6), "n": st.integers(0, 5), "len": st.integers(0, 8), "item": st.integers(0, 6),
                "exc": st.sampled_from(sorted(EXCS)), "op": st.sampled_from(sorted(OPS))}))

    def enumerated(self, tier):
        # every pair of tuples over {0, 1} up to length 3, in every pairing
        import itertools
        pool = [["i", 0], ["i", 1]]
        tuples = [t for n in range(4) for t in itertools.product((0, 1), repeat=n)]
        for cls in gen.ALL:
            for right in ("list", "same", "listsub", "sub", "IAL", "BIAL", "ILL", "OAL", "OLL"):
                for a in tuples:
                    for b in tuples:
                        yield {"cls": cls, "pool": pool, "init": list(a), "right": right,
                               "edits": [["cut", 0, ["i", 0] if cls in gen.INTS else 0]] + [["add", 0, ["i", v] if cls in gen.INTS else v] for v in b]}
        for cls in gen.ALL:
            for k in sorted(NONSEQ):
                for n in (0, 1, 3):
                    yield {"cls": cls, "nonseq": k, "n": n}
            for n in (0, 1, 3):
                for size in (0, 1, 3, 5):
                    for bad_len, item in ((0, 9), (1, 9), (2, 9), (9, 0), (9, 1), (9, 2), (9, 3)):
                        for op in sorted(OPS):
                            for e in ("Boom", "IndexError", "TypeError", "KeyboardInterrupt"):
                                yield {"cls": cls, "badseq": size, "n": n, "len": bad_len, "item": item, "exc": e, "op": op}
        # every pair of values from the ends and middle of the range, after equal elements
        for cls in gen.INTS:
            bits = (63,) if cls == "BIAL" else ()
            ends = sorted({x for b in (0, 1, 7, 8, 15, 16, 30, 31, 32, 53, *bits) if cls == "BIAL" or b < 32
                           for x in (2**b - 1, -2**b, 2**b // 2 + 1, -2**b // 2 - 1)})
            for a in ends:
                for b in ends:
                    for right in ("same", "list") if cls == "ILL" else ("same", "same2", "list"):
                        pre = [1, 2] if right == "same2" else []
                        yield {"cls": cls, "init": pre + [a, 0], "right": right.rstrip("2"),
                               "edits": [["cut", len(pre), ["i", 0]], ["add", 0, ["i", b]], ["add", 0, ["i", 1]]]}
        # one difference at every position of every length around the block sizes
        for cls in gen.ALL:
            for n in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100):
                for p in range(n):
                    for right in ("same", "list"):
                        yield {"cls": cls, "pool": [["i", i] for i in range(101)], "init": list(range(n)), "right": right,
                               "edits": [["bump", p, ["i", 0] if cls in gen.INTS else 0]]}

        for cls, n, base, v, absent in gen.large_bases(tier):
            base = dict(base, pool=[["i", i] for i in range(98)])
            for right in ("list", "same", "listsub", "sub", "IAL", "BIAL", "ILL", "OAL", "OLL"):
                if right in ("ILL", "OLL", "sub", "IAL", "BIAL", "OAL") and (right in ("ILL", "OLL") or cls in ("ILL", "OLL")) and right != cls:
                    if n > 700:
                        continue             # (other containers find the nodes of a linked one by their positions)
                if n < 60000 or right in ("list", "same", "IAL"):
                    yield dict(base, right=right, edits=[])
                    yield dict(base, right=right, edits=[["add", 0, ["i", 0] if cls in gen.INTS else 0]])
                    yield dict(base, right=right, edits=[["cut", n - 1, ["i", 0] if cls in gen.INTS else 0]])
                    for p in gen.large_places(n):
                        yield dict(base, right=right, edits=[["bump", p, ["i", 0] if cls in gen.INTS else 0]])

    def nonseq(self, case, ctx):
        if case["nonseq"] not in NONSEQ or case["cls"] not in CLASSES:
            raise Invalid("nonseq")
        x = CLASSES[case["cls"]](range(case["n"]))
        other = NONSEQ[case["nonseq"]]()
        for a, b, o in ((x, other, "=="), (other, x, "==")):
            if (a == b) is not False or (a != b) is not True:
                raise Violation("%s of %d elements equals %s" % (case["cls"], case["n"], case["nonseq"]))
        for name in ("<", "<=", ">", ">="):
            for a, b in ((x, other), (other, x)):
                try:
                    y = OPS[name](a, b)
                except TypeError:
                    continue
                if y is not False:
                    raise Violation("%s of %d elements is ordered with %s: %s gave %r" % (case["cls"], case["n"], case["nonseq"], name, y))
        if x.to_list() != list(range(case["n"])):
            raise Violation("comparing changed the container")
        ctx.nt()
        ctx.label("nonseq")

    def badseq(self, case, ctx):
        size, n = case["badseq"], case["n"]
        if not (0 <= size < 20 and 0 <= n < 20) or case["op"] not in OPS or case["exc"] not in EXCS:
            raise Invalid("badseq")
        exc = EXCS[case["exc"]]("x") if case["exc"] != "UnicodeError" else UnicodeError("x")
        x = CLASSES[case["cls"]](range(n))
        s = BadSeq(list(range(20)), size, case["len"], case["item"], exc)
        try:
            y = OPS[case["op"]](x, s)
        except BaseException as e:
            if e is not exc:
                raise Violation("comparing %d elements with a sequence whose %s raises %r raised %r" % (n, "__len__" if case["len"] < 9 else "__getitem__", exc, e))
            e.__traceback__ = None
        else:
            # with what it saw before a failure there is an answer
            if s.failed:
                raise Violation("comparing with a sequence that raised %r gave %r" % (exc, y))
            if y is not OPS[case["op"]](list(range(n)), list(range(size))):
                raise Violation("%d elements %s the first %d of them gave %r" % (n, case["op"], size, y))
        if x.to_list() != list(range(n)):
            raise Violation("comparing changed the container")
        ctx.nt(s.failed)
        ctx.label("badseq")

    @staticmethod
    def agree(a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "exc":
            return isinstance(a[1], type(b[1]))
        try:
            return bool(a[1]) == bool(b[1])
        except Boom:
            return True

    def run(self, case, ctx):
        if "nonseq" in case:
            return self.nonseq(case, ctx)
        if "badseq" in case:
            return self.badseq(case, ctx)
        w = World(case)
        left = w.model
        right = list(left)
        for kind, pos, v in case["edits"]:
            e = w.val(v) if w.obj else spec_object(v, pos)
            n = len(right)
            if kind == "cut":
                right = right[:pos]
            elif kind == "add":
                right.append(e)
            elif kind == "front":
                right.insert(0, e)
            elif kind == "all":
                right = [e] * n
            elif n and kind == "set":
                right[pos % n] = e
            elif n and kind == "bump":
                if type(right[pos % n]) is int:
                    right[pos % n] += 1
            elif n and kind in ("flip", "bit"):
                # far away, or another high bit, within the range of the class
                y = right[pos % n]
                if type(y) is int:
                    right[pos % n] = ~y if kind == "flip" else y ^ (1 << (pos * 7 + n) % (63 if w.cls == "BIAL" else 31))
            elif n and kind == "dup":
                right.insert(pos % n, right[pos % n])
            elif n and kind == "type":
                # the same number as another type or object
                y = right[pos % n]
                if type(y) is int:
                    right[pos % n] = float(y) if pos % 2 and abs(y) < 2**50 else int(str(y))
        r = case["right"]
        if r in CLASSES and r != w.cls and (r in ("ILL", "OLL") or w.cls in ("ILL", "OLL")) and len(left) > 1500 or r == "sub" and len(left) > 1500:
            r = "list"                        # (the nodes of a linked list are found by their positions: quadratic time)
        if r == "list":
            other = list(right)
        elif r == "listsub":
            other = ListSub(right)
        elif r == "self":
            other, right = w.real, left
        elif r == "alias":
            other, right = w.real.copy(), left
        elif r in ("same", "sub") or r in CLASSES:
            T = w.type if r == "same" else SUBCLASSES[w.cls] if r == "sub" else CLASSES[r]
            try:
                other = T(right)
            except Exception:
                other = list(right)           # not storable there
                r = "list"
            if r != "list" and not w.obj:
                right = other.to_list()       # (int containers normalise bools and the like)
            elif r in ("IAL", "BIAL", "ILL"):
                right = other.to_list()
        else:
            raise Invalid("right")
        keep = other if r in ("self", "alias") else None
        rr = list(right)
        touched = len(left) and len(right)
        for name, op in OPS.items():
            for order in (0, 1):
                if order == 0:
                    a, b = run_both(lambda: op(w.real, other), lambda: op(left, right))
                else:
                    a, b = run_both(lambda: op(other, w.real), lambda: op(right, left))
                # Python may ask the right operand first (with the mirrored operator), so elements whose
                # comparisons depend on the side can be asked either way round
                rop = OPS[MIRROR[name]]
                b2 = run_both(lambda: rop(right, left), lambda: rop(left, right))[order]
                what = "%s %s %s (%s)%s: %s and %s" % (w.cls, name, type(other).__name__, r, " swapped" if order else "",
                                                       w.show(left), w.show(right))
                short = name in ("==", "!=") and len(left) != len(right)
                if a[0] == "exc" and isinstance(a[1], Boom) and short:
                    continue                  # a list looks at the lengths first; looking at the elements is fine too
                if self.agree(a, b2):
                    continue
                if b[0] == "exc":
                    if a[0] != "exc" or not isinstance(a[1], type(b[1])):
                        raise Violation("%s: %r, lists raise %r" % (what, a[1], b[1]))
                elif a[0] == "exc":
                    raise Violation("%s raised %r, lists give %r" % (what, a[1], b[1]))
                else:
                    try:
                        eb = bool(b[1])
                    except Boom:
                        continue
                    if bool(a[1]) != eb:
                        raise Violation("%s gave %r, lists give %r" % (what, a[1], b[1]))
        w.check_state("after comparing")
        if keep is None and not (len(other) == len(rr) and all(p is q or (type(p) is int and p == q) for p, q in zip(list(other), rr))):
            raise Violation("comparing changed the right operand")
        ctx.label("pair:%s-%s" % (w.cls, r))
        ctx.label("relation:" + ("same length" if len(left) == len(right) else "lengths differ"))
        ctx.nt(bool(touched))


CHECK = C04()
