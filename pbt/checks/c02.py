"""C02: integers are stored and read back exactly."""
import sys

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import ARRAYS, CLASSES, RANGE, SUBCLASSES, IntSub
from pbt.engine import Invalid, Violation

WRITES = ("ctor_list", "ctor_tuple", "ctor_gen", "append", "insert", "extend_list", "extend_gen", "extend_same",
          "iadd", "setitem", "setslice", "range", "mul", "intsub", "resize", "wide")


def points(cls):
    lo, hi = RANGE[cls]
    out = set()
    for k in range(0, 65):
        for d in (-2, -1, 0, 1, 2):
            for s in (1, -1):
                out.add(s * (1 << k) + d)
    for k in (10, 100, 255, 256, 257, 1000, 32767, 10**6, 10**9, 10**12, 10**15, 10**18, 123456789, 987654321):
        out.update((k, -k))
    return sorted(v for v in out if lo <= v <= hi)


class C02:
    id = "C02"

    def strategy(self, tier):
        return st.sampled_from(gen.INTS).flatmap(lambda c: st.fixed_dictionaries({
            "cls": st.just(c), "w": st.sampled_from(WRITES),
            "v": st.lists(gen.int_values(c, hit=False), min_size=1, max_size=9)}))

    def enumerated(self, tier):
        for cls in gen.INTS:
            pts = points(cls)
            for w in WRITES:
                for i in range(0, len(pts), 11):
                    yield {"cls": cls, "w": w, "v": pts[i:i + 11]}
        # every small value once
        for cls in gen.INTS:
            for i in range(-1024, 1024, 64):
                yield {"cls": cls, "w": "ctor_list", "v": list(range(i, i + 64))}

    def run(self, case, ctx):
        cls, how, vals = case["cls"], case["w"], case["v"]
        if cls not in RANGE or not vals:
            raise Invalid("case")
        lo, hi = RANGE[cls]
        if not all(isinstance(v, int) and lo <= v <= hi for v in vals):
            raise Invalid("range")
        T = CLASSES[cls]
        fresh = [int(str(v)) for v in vals]           # what goes in is not what we compare with
        if how == "ctor_list":
            x = T(fresh)
        elif how == "ctor_tuple":
            x = T(tuple(fresh))
        elif how == "ctor_gen":
            x = T(v for v in fresh)
        elif how == "append":
            x = T()
            for v in fresh:
                x.append(v)
        elif how == "insert":
            x = T()
            for i, v in enumerate(fresh):
                x.insert(i, v)
        elif how == "extend_list":
            x = T()
            x.extend(fresh)
        elif how == "extend_gen":
            x = T()
            x.extend(v for v in fresh)
        elif how == "extend_same":
            x = T()
            x.extend(T(fresh))
        elif how == "iadd":
            x = T()
            x += iter(fresh)
        elif how == "setitem":
            x = T([0] * len(vals))
            for i, v in enumerate(fresh):
                x[i] = v
        elif how == "setslice":
            x = T([7])
            x[0:1] = fresh
        elif how == "range":
            vals = [v for v in vals for v in (v, v + 1) if v + 1 <= hi - 1 and v < 2**63 - 3]
            x = T()
            for v in vals[::2]:
                x += T.from_range(v, v + 2)
        elif how == "mul":
            x = T(fresh) * 2
            vals = vals * 2
        elif how == "intsub":
            x = T([IntSub(v) for v in fresh])
            for v in fresh:
                x.append(IntSub(v))
            vals = vals * 2
        elif how == "resize":
            x = T(fresh)
            if cls in ARRAYS:
                x.resize(len(vals) + 2)
                x.resize(len(vals))
        elif how == "wide":
            # widening and narrowing between the int containers
            other = CLASSES["BIAL" if cls != "BIAL" else "OAL"](fresh)
            x = T(other)
        else:
            raise Invalid("write")
        del fresh
        n = len(vals)

        def check(path, got):
            got = list(got)
            if len(got) != n:
                raise Violation("%s written by %s, read by %s: %d elements, expected %d" % (cls, how, path, len(got), n))
            for i, (g, v) in enumerate(zip(got, vals)):
                bad = None
                if type(g) is not int or g != v:
                    bad = "%r" % (g,)
                elif hash(g) != hash(v) or repr(g) != repr(v):
                    bad = "an int whose hash or repr is wrong: %r" % (g,)
                elif g + 1 != v + 1 or g - v != 0 or g * 3 != v * 3 or -g != -v or (g << 3) >> 3 != v or abs(g) != abs(v) or g // 7 != v // 7 or ~g != ~v:
                    bad = "%r, whose arithmetic is wrong" % (g,)
                elif g.bit_length() != v.bit_length() or bool(g) != bool(v) or (g < 0) != (v < 0) or (g & 0xFFFFFFFFFF) != (v & 0xFFFFFFFFFF):
                    bad = "%r, a malformed int" % (g,)
                elif sys.getsizeof(g) != sys.getsizeof(int(str(v))) or g.to_bytes(9, "little", signed=True) != v.to_bytes(9, "little", signed=True):
                    bad = "%r, an int with a wrong number of digits" % (g,)
                if bad:
                    raise Violation("%s written by %s, read by %s: element %d is %s, expected %d" % (cls, how, path, i, bad, v))

        check("to_list", x.to_list())
        check("iteration", (g for g in x))
        check("index", (x[i] for i in range(n)))
        check("negative index", (x[i - n] for i in range(n)))
        check("slice", x[:])
        check("backward slice", x[::-1][::-1])
        check("reversed", list(reversed(x))[::-1])
        check("copy", x.copy())
        check("unpacking", [*x])
        check("list()", list(x))
        if repr(x) != repr(vals):
            raise Violation("%s written by %s: repr %s, expected %r" % (cls, how, repr(x), vals))
        for i, v in enumerate(vals):
            if v not in x or x.index(v) != vals.index(v) or x.count(v) != vals.count(v):
                raise Violation("%s written by %s: %d is not found at %d" % (cls, how, v, vals.index(v)))
        if not (x == vals) or x != vals:
            raise Violation("%s written by %s: %r != %r" % (cls, how, x, vals))
        if cls in ("IAL", "BIAL"):
            check("buffer", memoryview(x).tolist())
        y = x.copy()
        check("pop", [y.pop() for _ in range(n)][::-1])
        y = x.copy()
        check("pop(0)", [y.pop(0) for _ in range(n)])
        y = SUBCLASSES[cls](x)
        check("subclass", y)
        y = x.copy()
        y.sort()
        if y.to_list() != sorted(vals) or (vals and min(y) != min(vals)):
            raise Violation("%s written by %s: sorted to %r" % (cls, how, y))
        y.sort(reverse=True)
        if y.to_list() != sorted(vals, reverse=True):
            raise Violation("%s written by %s: sorted down to %r" % (cls, how, y))
        ctx.label("write:" + how)
        ctx.nt(any(abs(v) > 1024 for v in vals))


CHECK = C02()
