"""C10: failed operations change nothing."""
from hypothesis import strategies as st

from pbt import gen
from pbt.bad import ARITY, CALLER, EXCS, NOINDEX, NOINTS, NOITER, BADFAIL, bad, gen_bad
from pbt.cont import World
from pbt.ops import step


@gen.cached
def ops(cls, n, vals, max_ops):
    good = gen.pick(gen.op_table(cls, n, vals), {"append": 2, "pop": 1, "popi": 1, "insert": 2, "setitem": 1, "delitem": 1,
                                                        "extend": 1, "setslice": 1, "iadd": 1, "reverse": 1, "sort": 1, "clear": 1, "imul": 1})
    b = gen_bad(cls, n, vals)
    return st.lists(st.one_of(b, b, b, good), min_size=1, max_size=max_ops)


@st.composite
def cases(draw, max_ops):
    case, n, vals = draw(gen.worlds(max_n=150, large=20000))
    case["ops"] = draw(ops(case["cls"], n, vals, max_ops))
    return case


class C10:
    id = "C10"

    def strategy(self, tier):
        return cases(12)

    def enumerated(self, tier):
        for cls in gen.ALL:
            for n in (0, 1, 2, 9, 40):
                base = {"cls": cls, "pool": [["o", i] for i in range(50)], "init": list(range(n))}
                ops = []
                for i in sorted(NOINDEX):
                    for where in ("get", "set", "del", "insert", "pop", "index2", "index3", "slice", "setslice", "delslice"):
                        ops.append(["bad", "index_type", where, i, 1])
                for d in (0, 1, 5, 2**31, 2**32, 2**63 - 1, 2**63, 2**70, -1, -2, -2**31, -2**32, -2**63, -2**70):
                    for where in ("get", "set", "del", "pop"):
                        ops.append(["bad", "range", where, d, 1])
                for x in sorted(NOITER):
                    for where in ("extend", "iadd", "setslice", "add", "ctor"):
                        ops.append(["bad", "noiter", where, x])
                for kind in BADFAIL:
                    for where in ("extend", "iadd", "setslice", "ctor", "init"):
                        for k in (0, 1, 3):
                            ops.append(["bad", "failing", where, kind, [1, 2, 3, 4], k])
                        if kind in ("failat", "failseq", "failgen") and where != "setslice":
                            for e in sorted(EXCS):
                                ops.append(["bad", "failing", where, kind, [1, 2, 3, 4], 2, e])
                for where in CALLER:
                    for e in sorted(EXCS):
                        ops.append(["bad", "caller", where, e, 1, [1, 2]])
                    for k in (0, 2, 3, 5):
                        ops.append(["bad", "caller", where, "Boom", k, [1, 2]])
                        ops.append(["bad", "caller", where, "KeyboardInterrupt", k, [1, 2]])
                for meth in ARITY:
                    for k in range(6):
                        ops.append(["bad", "arity", meth, k, 1])
                    ops.append(["bad", "kw", meth])
                ops += [["bad", "kw", "sort"], ["bad", "missing", "remove"], ["bad", "missing", "index"], ["bad", "attr"], ["bad", "hash"]]
                ops += [["bad", "sortkey", k] for k in ("raise", "nocall", "incomparable", "badrev")]
                ops += [["bad", "operand", o, x] for o in ("*", "*=", "r*", "+") for x in ("none", "float", "str", "obj", "dict", "set")]
                ops += [["bad", "stepzero", o] for o in ("get", "set", "del")]
                ops += [["bad", "hugerep", o, k] for o in ("*", "*=", "r*") for k in (2**63 - 1, 2**62, 2**64, 2**70)]
                if cls in gen.INTS:
                    for v in sorted(NOINTS):
                        for where in ("append", "insert", "setitem", "index", "remove", "count"):
                            for i in (0, 1, -1):
                                ops.append(["bad", "value", where, v, i])
                        for where in ("extend", "iadd", "setslice", "ctor"):
                            for kind in ("list", "tuple", "gen", "listsub", "OAL", "OLL"):
                                for k in (0, 2, 4):
                                    ops.append(["bad", "mixed", where, v, kind, [1, 2, 3, 4], k, [0, 1, None]])
                                    ops.append(["bad", "mixed", where, v, kind, [1, 2, 3, 4], k, [1, -1, None]])
                if cls in gen.ARRAYS:
                    ops += [["bad", "resize", k] for k in ("neg", "neg2", "huge", "huge2", "huge3", "str", "none", "float", "hugeneg")]
                for op in ops:
                    yield dict(base, ops=[op, ["append", 1]])

    def run(self, case, ctx):
        w = World(case)
        raised = 0
        for k, op in enumerate(case["ops"]):
            if op[0] == "bad":
                raised += bad(w, op, ctx) is not None
            else:
                step(w, op)
                w.check_state("after step %d %s" % (k, op), full=False)
        w.check_state("at the end")
        ctx.nt(raised > 0)


CHECK = C10()
