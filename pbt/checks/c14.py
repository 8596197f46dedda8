"""C14: resize fills and truncates."""
import struct
import sys

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import ARRAYS, Index, World
from pbt.engine import Invalid, Violation
from pbt.ops import step

LIMIT = 300000
MUTS = {"append": 3, "extend": 3, "insert": 3, "pop": 4, "popi": 3, "clear": 3, "reverse": 1, "sort": 1, "setitem": 2, "delitem": 2,
        "setslice": 3, "delslice": 4, "delslicex": 2, "iadd": 3, "imul": 2, "copy": 1, "getslice": 1, "remove": 1, "mul": 1}
BAD_SIZES = [-1, -2, -2**31, -2**63, 2**63 - 1, 2**62, 2**61, 2**60 + 1, 2**63, 2**64, 2**64 + 2, -2**64 + 1]


@gen.cached
def ops(cls, n, vals, max_ops):
    size = st.one_of(st.integers(0, n + 8), st.integers(0, 12), st.integers(0, 200), st.integers(max(0, n - 3), n + 3),
                     st.sampled_from([0, 1, 2, 4, 8, 16, 32, 64, 128, 1000, 1024, 4096, 5000]))
    rel = gen.cmd("rel", st.sampled_from([-1, 1, 2, 3, 7, -2, -3, 0, 8, 16, 33, 100, -7]))
    half = gen.cmd("times", st.sampled_from([[1, 2], [2, 1], [3, 2], [1, 3], [0, 1], [1, 1]]))
    rs = gen.cmd("resize", size)
    op = st.one_of(rs, rs, rs, rel, rel, half, gen.pick(gen.op_table(cls, n, vals), MUTS), gen.pick(gen.op_table(cls, n, vals), MUTS),
                   gen.cmd("badresize", st.sampled_from(BAD_SIZES)), gen.cmd("badtype", st.sampled_from(["none", "float", "str", "none2", "two"])),
                   gen.cmd("indexresize", st.integers(0, 60)), gen.cmd("fillall", vals), gen.cmd("swapcopy"))
    return st.lists(op, min_size=2, max_size=max_ops)


@st.composite
def cases(draw, max_ops):
    case, n, vals = draw(gen.worlds(classes=ARRAYS, max_n=300, large=100000))
    case["pre"] = draw(st.sampled_from([0, 0, 0, 1, 10, 64, 1000]))
    case["ops"] = draw(ops(case["cls"], n, vals, max_ops))
    return case


class C14:
    id = "C14"

    def strategy(self, tier):
        return cases(16)

    def enumerated(self, tier):
        top = 12 if tier == "quick" else 24
        for cls in ARRAYS:
            pool = [["o", i] for i in range(40)]
            for n in range(top):
                for how in ("list", "append"):
                    base = {"cls": cls, "pool": pool, "init": list(range(7, 7 + n)), "how": how, "pre": 0}
                    for a in range(top):
                        yield dict(base, ops=[["resize", a], ["resize", n], ["resize", a + 1], ["resize", 2 * n + a]])
                        yield dict(base, ops=[["clear"], ["resize", a], ["append", 3], ["resize", a + 9]])
                        yield dict(base, ops=[["delslice", [a, None, None]], ["resize", n], ["resize", a], ["extend", ["list", [1, 2]]], ["resize", n + a]])
                        yield dict(base, ops=[["pop"], ["rel", 1], ["delslice", [0, a, None]], ["rel", a], ["times", [2, 1]]])
            for n in (0, 1, 7, 64, 1000):
                for a in list(range(60, 70)) + [127, 128, 129, 255, 256, 257, 1000, 4097, 65536, 100003]:
                    yield {"cls": cls, "pool": pool, "init": ["lin", n, 3, 1, 101], "how": "list", "pre": a if n else 0,
                           "ops": [["resize", a], ["fillall", 5], ["resize", n], ["resize", a], ["fillall", 6], ["clear"], ["resize", a + 1], ["badresize", -1],
                                   ["badresize", 2**62]]}

    def run(self, case, ctx):
        w = World(case)
        if w.cls not in ARRAYS:
            raise Invalid("class")
        if case.get("pre"):
            # preallocated, then filled
            if not 0 <= case["pre"] <= 200000:
                raise Invalid("pre")
            x = w.type(case["pre"])
            if len(x) or x.to_list():
                raise Violation("%s(%d) is not empty but %s" % (w.type.__name__, case["pre"], w.show(x.to_list())))
            x.extend(w.model)
            w.real = x
            x = None
        r, pool = w.real, w.pool
        own = [o for o in pool if type(o).__name__ in ("Obj", "Plain", "list")] if w.obj else []
        base = None
        refill = False
        filled = False

        def refs():
            pos = {}
            for x in w.model:
                pos[id(x)] = pos.get(id(x), 0) + 1
            x = None
            return [sys.getrefcount(o) - 2 * pos.get(id(o), 0) for o in own]

        def resize(n, arg=None):
            m = w.model
            old = len(m)
            res = w.real.resize(n if arg is None else arg)
            if res is not None:
                raise Violation("resize returned %r" % (res,))
            del m[n:]
            m.extend([None if w.obj else 0] * (n - len(m)))
            return n > old

        base = refs()
        for k, op in enumerate(case["ops"]):
            name = op[0]
            m = w.model
            n = len(m)
            what = "%s of %d elements, step %d %s" % (w.type.__name__, n, k, w.show(op))
            if name == "resize":
                if not (isinstance(op[1], int) and 0 <= op[1] <= LIMIT):
                    raise Invalid("size")
                grew = resize(op[1])
            elif name == "rel":
                grew = resize(max(0, n + op[1]))
            elif name == "times":
                a, b = op[1]
                if b <= 0 or n * a // b > LIMIT:
                    continue
                grew = resize(n * a // b)
            elif name == "indexresize":
                if not 0 <= op[1] <= LIMIT:
                    raise Invalid("size")
                try:
                    grew = resize(op[1], Index(op[1]))
                except TypeError:
                    grew = False
                    if not w.eql(r.to_list(), w.model):
                        raise Violation("%s: refused and left %s" % (what, w.show(r.to_list())))
            elif name == "badresize":
                grew = False
                if 0 <= op[1] < 2**60:
                    raise Invalid("size")
                try:
                    r.resize(op[1])
                except SystemError as e:
                    raise Violation("%s raised %r" % (what, e))
                except Exception:
                    pass
                else:
                    raise Violation("%s: succeeded; the length is %d" % (what, len(r)))
            elif name == "badtype":
                grew = False
                try:
                    {"none": lambda: r.resize(None), "float": lambda: r.resize(2.0), "str": lambda: r.resize("3"),
                     "none2": lambda: r.resize(), "two": lambda: r.resize(3, 4)}[op[1]]()
                except SystemError as e:
                    raise Violation("%s raised %r" % (what, e))
                except Exception:
                    pass
                else:
                    raise Violation("%s: succeeded" % what)
            elif name == "fillall":
                grew = False
                v = w.val(op[1])
                for i in range(n):
                    r[i] = v
                    m[i] = v
                v = None
                filled = True
            elif name == "swapcopy":
                grew = False
                w.real = r = r.copy()
            else:
                grew = False
                if name in ("imul", "mul") and n > 20000:
                    continue
                step(w, op)
                if len(w.model) < n:
                    filled = True
            if name in ("resize", "rel", "times"):
                ctx.label("grew" if grew else "shrank")
                if grew and filled:
                    refill = True
                if len(w.model) < n:
                    filled = True
            w.check_state("after " + what, full=len(w.model) <= 70)
            if not w.obj:
                f = "i" if w.cls == "IAL" else "q"
                if len(w.model) < 5000 and bytes(w.real) != struct.pack("=%d%s" % (len(w.model), f), *w.model):
                    raise Violation("%s: the buffer holds %r" % (what, bytes(w.real)[:100]))
            elif own:
                now = refs()
                if now != base:
                    raise Violation("%s: reference counts off by %s" % (what, [a - b for a, b in zip(now, base)]))
            if len(w.model) > LIMIT:
                break
        ctx.nt(refill)
        if own:
            w.real = r = None
            del w.model[:]
            now = refs()
            if now != base:
                raise Violation("%s: after the list is gone, reference counts off by %s" %
                                (w.type.__name__, [a - b for a, b in zip(now, base)]))


CHECK = C14()
