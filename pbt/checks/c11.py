"""C11: object containers own their elements exactly once."""
import sys
import weakref

from hypothesis import strategies as st

from pbt import gen
from pbt.bad import bad, gen_bad
from pbt.cont import CLASSES, OBJS, SUBCLASSES, Boom, World
from pbt.engine import Invalid, Violation
from pbt.ops import step

OWN_POOLS = st.lists(st.one_of(st.builds(lambda n: ["o", n], st.integers(0, 3)), st.just(["p"]), st.just(["nb", 1]), st.just(["nv"]),
                               st.just(["rz"]), st.builds(lambda n: ["l", [n]], gen.small)), min_size=2, max_size=8)
SORT_POOLS = st.lists(st.builds(lambda n: ["o", n], st.integers(0, 3)), min_size=2, max_size=8)
WEIGHTS = {"append": 4, "extend": 4, "insert": 5, "pop": 3, "popi": 4, "remove": 4, "clear": 2, "reverse": 2, "sort": 3,
           "setitem": 5, "delitem": 4, "setslice": 4, "setslicex": 2, "delslice": 3, "delslicex": 2, "iadd": 4, "imul": 3, "resize": 3,
           "index": 2, "count": 2, "in": 2, "notin": 1, "getitem": 2, "getslice": 2, "repr": 1, "to_list": 1, "copy": 1, "iter": 1,
           "reversed": 1, "mul": 2, "add": 3}
HOLD = ("copy", "to_list", "slice", "mul", "add", "ctor", "ctor_sub", "iter", "reversed", "list", "rmul")


@gen.cached
def ops(cls, n, vals, max_ops):
    op = gen.pick(gen.op_table(cls, n, vals), WEIGHTS)
    b = gen_bad(cls, n, vals)
    who = st.integers(0, 3)
    return st.lists(st.one_of(op, op, op, op, op, b, b, gen.cmd("hold", st.sampled_from(HOLD)), gen.cmd("drop", who), gen.cmd("advance", who),
                              gen.cmd("compare", st.sampled_from(["same", "list"])), gen.cmd("sortraise", st.integers(1, 9), st.booleans()),
                              gen.cmd("reinit", st.sampled_from(["list", "empty", "same", "self"]))),
                    min_size=1, max_size=max_ops)


@st.composite
def cases(draw, max_ops):
    case, n, vals = draw(gen.worlds(classes=OBJS, max_n=100, pool_strategy=st.one_of(OWN_POOLS, SORT_POOLS), large=20000))
    case["ops"] = draw(ops(case["cls"], n, vals, max_ops))
    case["end"] = draw(st.sampled_from(["container", "held", "clear"]))
    return case


class C11:
    id = "C11"

    def strategy(self, tier):
        return cases(14)

    def enumerated(self, tier):
        for cls in OBJS:
            pool = [["o", i % 3] for i in range(6)]
            for n in (0, 1, 2, 5):
                base = {"cls": cls, "pool": pool, "init": list(range(n)), "end": "container"}
                muts = [["append", 5], ["pop"], ["clear"], ["reverse"], ["sort", {"r": None, "k": None}], ["remove", 1], ["imul", 2], ["imul", 0],
                        ["imul", 1], ["extend", ["list", [4, 5]]], ["extend", ["gen", [4, 5]]], ["extend", ["tuple", [4, 5]]], ["extend", ["same", [4, 5]]],
                        ["extend", ["self"]], ["iadd", ["same", [4]]], ["iadd", ["self"]], ["iadd", ["gen", [1]]], ["copy"], ["to_list"],
                        ["add", ["list", [1, 2]]], ["add", ["same", [1, 2]]], ["mul", 3], ["mul", 0], ["getslice", [None, None, -1]], ["repr"],
                        ["getslice", [0, 2, None]], ["setslice", [0, 1, None], ["list", [3, 3]]], ["setslice", [0, 2, None], ["same", [3]]],
                        ["setslice", [0, 2, None], ["self"]], ["setslice", [0, 2, 2], ["list", [3]]], ["delslice", [None, None, 2]], ["count", 1], ["index", 1], ["in", 1]]
                muts += [["hold", h] for h in HOLD] + [["sortraise", 1, False], ["compare", "same"], ["compare", "list"], ["reinit", "list"], ["reinit", "self"], ["reinit", "empty"], ["reinit", "same"]]
                for i in range(-1, n + 1):
                    muts += [["insert", i, 4], ["popi", i], ["setitem", i, 4], ["delitem", i], ["getitem", i]]
                if cls == "OAL":
                    muts += [["resize", k] for k in (0, 1, 5, 9)]
                for a in muts:
                    for how in ("list", "same", "gen", "append", "tuple"):
                        yield dict(base, how=how, ops=[a])
                    for b in muts:
                        yield dict(base, ops=[a, b])

            for n in (601, 4099, 20003):
                base = {"cls": cls, "pool": [["o", i] for i in range(7)], "init": ["lin", n, 1, 0, 7], "end": "container"}
                same = ["lin", n, 1, 0, 7]
                muts = [["append", 5], ["pop"], ["clear"], ["reverse"], ["sort", {"r": None, "k": "okey"}], ["remove", 1], ["imul", 2], ["imul", 0],
                        ["extend", ["list", same]], ["extend", ["gen", same]], ["extend", ["tuple", same]], ["extend", ["same", same]],
                        ["extend", ["self"]], ["iadd", ["same", same]], ["iadd", ["self"]], ["iadd", ["gen", same]], ["copy"], ["to_list"],
                        ["add", ["list", same]], ["add", ["same", same]], ["mul", 3], ["mul", 0], ["getslice", [None, None, -1]], ["repr"],
                        ["getslice", [0, n // 2, None]], ["setslice", [0, n // 2, None], ["list", [3, 3]]], ["setslice", [0, n // 2, None], ["same", same]],
                        ["setslice", [5, 5, None], ["self"]], ["delslice", [None, None, 2]], ["delslice", [5, n - 5, None]], ["delslice", [n // 2, None, None]],
                        ["count", 1], ["index", 1], ["compare", "same"], ["compare", "list"], ["reinit", "list"], ["reinit", "self"], ["reinit", "empty"],
                        ["insert", n // 2, 4], ["popi", n // 2], ["setitem", n - 1, 4], ["delitem", n // 2]]
                if cls == "OAL":
                    muts += [["resize", k] for k in (0, n // 2, n + 1, 2 * n)]
                muts += [["hold", h] for h in HOLD]
                for k, a in enumerate(muts):
                    yield dict(base, how=("list", "same", "gen", "append", "tuple")[k % 5], end=("container", "held", "clear")[k % 3], ops=[a])
            for n, k in ((1, 9000), (3, 300), (3, 9001), (33, 129), (5001, 3)):
                yield {"cls": cls, "pool": [["o", i] for i in range(7)], "init": ["lin", n, 1, 0, 7], "end": "container", "ops": [["imul", k], ["append", 5]]}
                yield {"cls": cls, "pool": [["o", i] for i in range(7)], "init": ["lin", n, 1, 0, 7], "end": "container", "ops": [["mul", k], ["append", 5]]}

    def run(self, case, ctx):
        if case["cls"] not in OBJS:
            raise Invalid("class")
        # the pool has to hold objects of its own, not shared constants
        if not all(s[0] in ("o", "p", "nb", "nv", "rz", "l") for s in case.get("pool", [])):
            raise Invalid("pool")
        c = dict(case, init=[])
        how = c.pop("how", "list")
        w = World(c)
        w.loose_sort = True
        pool = w.pool
        if not isinstance(case["init"], list):
            raise Invalid("init")
        count = sys.getrefcount
        base = [count(o) for o in pool]
        w.model = w.values(case["init"])
        w.real = None
        w.real = w.make(w.model, how)
        held = []                            # (object, its elements or None)
        touched = 0

        def check(what):
            ids = {}
            for x in w.model:
                ids[id(x)] = ids.get(id(x), 0) + 2
            for _, m in held:
                if m is not None:
                    for x in m:
                        ids[id(x)] = ids.get(id(x), 0) + 2
            x = None
            for i, o in enumerate(pool):
                o = None
                have = count(pool[i])
                want = base[i] + ids.get(id(pool[i]), 0)
                if have != want:
                    raise Violation("%s: element %d (%r) has %+d references too %s; contents %s" % (
                        what, i, type(pool[i]).__name__, have - want, "many" if have > want else "few", w.model and len(w.model)))

        check("after building from %s" % how)
        for k, op in enumerate(case["ops"]):
            name = op[0]
            if len(w.model) > 30000 and name not in ("clear", "pop"):
                continue
            if name == "bad":
                bad(w, op)
            elif name == "hold":
                self.hold(w, op[1], held)
                if len(held) > 4:
                    del held[0]
            elif name == "drop":
                if held:
                    del held[op[1] % len(held)]
            elif name == "advance":
                its = [h for h, m in held if m is None]
                if its:
                    next(its[op[1] % len(its)], None)
                del its
            elif name == "compare":
                y = w.make(w.model) if op[1] == "same" else list(w.model)
                for f in ("__eq__", "__ne__", "__lt__", "__ge__"):
                    try:
                        getattr(w.real, f)(y)
                    except (Boom, TypeError):
                        pass
                del y
            elif name == "sortraise":
                self.sortraise(w, op[1], op[2])
            elif name == "reinit":
                # calling __init__ again must not leak what was there
                if op[1] == "self":
                    pass
                elif op[1] == "empty":
                    w.real.__init__()
                    w.model[:] = w.real.to_list()
                elif op[1] == "list":
                    w.real.__init__(list(pool))
                    w.model[:] = w.real.to_list()
                else:
                    w.real.__init__(CLASSES[w.cls](pool))
                    w.model[:] = w.real.to_list()
            else:
                step(w, op)
            touched += 1
            check("after step %d %s" % (k, op))
            ctx.label("op:" + name)
        n = len(w.model)
        ctx.nt(touched > 0 and n > 0)
        refs = [weakref.ref(o) for o in pool if type(o).__name__ != "list"]
        if case["end"] == "container":
            w.real = None
            del w.model[:]
            check2 = [o for o, m in held if m is not None and hasattr(o, "to_list")]
            del check2
            held.clear()
        elif case["end"] == "held":
            held.clear()
            w.real = None
            del w.model[:]
        else:
            w.real.clear()
            del w.model[:]
            check("after the final clear")
            held.clear()
            w.real = None
        check("after everything was dropped")
        del pool
        w.pool = None
        alive = [r() for r in refs]
        if any(a is not None for a in alive):
            raise Violation("an element survives its last owner")

    def hold(self, w, how, held):
        r, m = w.real, w.model
        if how == "copy":
            held.append((r.copy(), list(m)))
        elif how == "to_list":
            held.append((r.to_list(), list(m)))
        elif how == "slice":
            held.append((r[1:], m[1:]))
        elif how == "mul":
            held.append((r * 2, m * 2))
        elif how == "rmul":
            held.append((2 * r, 2 * m))
        elif how == "add":
            held.append((r + list(m), m + m))
        elif how == "ctor":
            held.append((CLASSES[w.cls](r), list(m)))
        elif how == "ctor_sub":
            held.append((SUBCLASSES[w.cls](r), list(m)))
        elif how == "list":
            held.append((list(r), list(m)))
        elif how == "iter":
            held.append((iter(r), None))
        elif how == "reversed":
            held.append((reversed(r), None))
        else:
            raise Invalid("hold")

    def sortraise(self, w, at, rev):
        calls = [0]

        def key(x):
            calls[0] += 1
            if calls[0] == at:
                raise Boom("key")
            return getattr(x, "key", 0)
        before = list(w.model)
        try:
            w.real.sort(key=key, reverse=rev)
        except Boom:
            pass
        got = w.real.to_list()
        if sorted(map(id, got)) != sorted(map(id, before)):
            raise Violation("a failing sort lost or duplicated elements: %s from %s" % (w.show(got), w.show(before)))
        w.model[:] = got


CHECK = C11()
