"""C01: any history of mutations leaves a container equal to a list."""
from hypothesis import strategies as st

from pbt import gen
from pbt.cont import World
from pbt.engine import Violation  # noqa: F401
from pbt.ops import MUTATORS, step

WEIGHTS = {"append": 5, "extend": 4, "insert": 6, "pop": 3, "popi": 5, "remove": 4, "clear": 1, "reverse": 3,
           "sort": 2, "setitem": 4, "delitem": 4, "setslice": 4, "setslicex": 2, "delslice": 3, "delslicex": 2,
           "iadd": 3, "imul": 2, "resize": 3, "len": 1, "getitem": 2, "iter": 1, "reversed": 1, "index": 1,
           "copy": 1, "getslice": 1, "in": 1, "to_list": 1}


@gen.cached
def ops(cls, n, vals, max_ops):
    return st.lists(gen.pick(gen.op_table(cls, n, vals), WEIGHTS), min_size=1, max_size=max_ops)


@st.composite
def cases(draw, max_ops):
    case, n, vals = draw(gen.worlds(large=100000))
    case["ops"] = draw(ops(case["cls"], n, vals, max_ops))
    case["obs"] = draw(gen.sampled(("each", "each", "light", "end")))
    return case


class C01:
    id = "C01"

    def strategy(self, tier):
        return cases(30 if tier == "thorough" else 18)

    def enumerated(self, tier):
        # every pair of single mutations on every tiny container
        for cls in gen.ALL:
            for n in (0, 1, 2, 3):
                base = {"cls": cls, "init": list(range(n)), "how": "list", "obs": "each"}
                if cls in gen.OBJS:
                    base["pool"] = [["o", i % 3] for i in range(6)]
                muts = [["append", 5], ["pop"], ["clear"], ["reverse"], ["sort", {"r": None, "k": None}],
                        ["sort", {"r": True, "k": None}], ["remove", 1], ["imul", 2], ["imul", 0],
                        ["extend", ["list", [4, 5]]], ["extend", ["self"]], ["iadd", ["same", [4]]], ["iadd", ["self"]]]
                for i in range(-n - 1, n + 2):
                    muts += [["insert", i, 4], ["popi", i], ["setitem", i, 4], ["delitem", i],
                             ["setslice", [i, None, None], ["list", [4, 5]]], ["delslice", [None, i, None]]]
                if cls in gen.ARRAYS:
                    muts += [["resize", k] for k in (0, 1, 5)]
                for a in muts:
                    for b in muts:
                        yield dict(base, ops=[a, b])
        # single mutations of large containers, and then another one
        for cls, n, base, v, absent in gen.large_bases(tier):
            muts = [["append", absent], ["pop"], ["reverse"], ["sort", {"r": None, "k": None if cls in gen.INTS else "okey"}],
                    ["sort", {"r": True, "k": None if cls in gen.INTS else "okey"}], ["remove", absent], ["imul", 2], ["imul", 3], ["imul", 0], ["clear"],
                    ["extend", ["list", [absent, absent]]], ["extend", ["self"]], ["extend", ["gen", base["init"]]], ["extend", ["same", base["init"]]],
                    ["extend", ["list", base["init"]]], ["extend", ["tuple", base["init"]]], ["iadd", ["self"]], ["iadd", ["same", base["init"]]],
                    ["delslice", [None, None, 2]], ["delslice", [None, None, -3]], ["delslice", [1, -1, n // 2]], ["delslice", [5, n // 2, 7]],
                    ["delslice", [n // 2, None, None]], ["delslice", [None, n // 2, None]], ["delslice", [1, -1, None]], ["setslice", [None, None, None], ["self"]],
                    ["setslice", [n // 2, n // 2, None], ["self"]], ["setslice", [n // 3, -5, None], ["list", [absent]]],
                    ["setslice", [n // 3, n // 3 + 2, None], ["list", base["init"]]], ["setslice", [n // 3, n // 3 + 2, None], ["same", base["init"]]]]
            for i in gen.large_places(n):
                muts += [["insert", i, absent], ["popi", i], ["popi", i - n], ["setitem", i, absent], ["delitem", i], ["delitem", i - n], ["remove", v(i)]]
            if cls in gen.ARRAYS:
                muts += [["resize", k] for k in (n - 1, n + 1, n // 2, n // 2 + 7, 2 * n, 2 * n + 1)]
            after = [["append", absent], ["insert", 0, absent], ["reverse"], ["popi", n // 2], ["extend", ["list", [absent] * 9]]]
            for k, a in enumerate(muts):
                if n * (n > 10000) <= 20003 or k % 3 == 0 or tier != "quick" or a[0] in ("reverse", "imul", "extend", "iadd"):
                    yield dict(base, ops=[a, after[k % len(after)]], obs="light", how="list")
        for cls in gen.ALL:
            for n, k in ((1, 70000), (2, 5000), (3, 257), (3, 300), (3, 1000), (3, 33001), (7, 9001), (33, 129), (100, 65), (255, 257), (1000, 66), (5001, 3), (9001, 7), (40001, 3)):
                yield {"cls": cls, "pool": gen.LARGE_POOL, "init": ["lin", n, 1, 0, 97], "how": "list", "obs": "light", "ops": [["imul", k], ["append", 5]]}

    def run(self, case, ctx):
        w = World(case)
        obs = case["obs"]
        w.check_state("after construction (%s)" % case.get("how"), full=obs == "each")
        ctx.label("class:" + w.cls)
        done = 0
        for k, op in enumerate(case["ops"]):
            before = list(w.model)
            name = step(w, op, ctx)
            if name in MUTATORS and (len(before) != len(w.model) or any(x is not y for x, y in zip(before, w.model))):
                done += 1
            if obs != "end":
                w.check_state("after step %d %s" % (k, op), full=obs == "each" and len(w.model) < 400)
        w.check_state("at the end", full=True)
        ctx.label("size:" + ("0" if not w.model else "1-15" if len(w.model) < 16 else "16-99" if len(w.model) < 100 else "100+"))
        ctx.nt(done >= 2)


CHECK = C01()
