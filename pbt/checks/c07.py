"""C07: indexing and slicing."""
from hypothesis import strategies as st

from pbt import gen
from pbt.cont import Index, IntSub, World
from pbt.engine import Invalid
from pbt.ops import binary, do_del, do_set, step

NAMES = ("getitem", "setitem", "delitem", "getslice", "setslice", "delslice", "xget", "xset", "xdel", "xslice", "xsetslice", "xdelslice")


def wrap(kind, v):
    if v is None:
        return None
    return {"int": int, "index": Index, "sub": IntSub}[kind](v)


@gen.cached
def ops(cls, n, vals, max_ops):
    src = gen.sources(cls, vals, max_size=12, kinds=("list", "list", "tuple", "same", "listsub", "IAL", "OLL", "sub", "seq"))
    x = st.sampled_from(["index", "sub"])
    op = st.one_of(gen.cmd("getitem", gen.far_indices(n)), gen.cmd("setitem", gen.far_indices(n), vals), gen.cmd("delitem", gen.indices(n)),
                   gen.cmd("getslice", gen.slices(n)), gen.cmd("getslice", gen.slices(n)), gen.cmd("delslice", gen.slices(n)),
                   gen.cmd("setslice", gen.plain_slices(n), src), gen.cmd("setslice", gen.plain_slices(n), src),
                   gen.cmd("setslice", gen.slices(n), src),
                   gen.cmd("xget", x, gen.far_indices(n)), gen.cmd("xset", x, gen.indices(n), vals), gen.cmd("xdel", x, gen.indices(n)),
                   gen.cmd("xslice", x, gen.slices(n)), gen.cmd("xdelslice", x, gen.slices(n)),
                   gen.cmd("xsetslice", x, gen.plain_slices(n), src))
    return st.lists(op, min_size=1, max_size=max_ops)


BOOL = st.booleans()


@st.composite
def cases(draw, max_ops):
    case, n, vals = draw(gen.worlds(max_n=300, large=100000))
    case["ops"] = draw(ops(case["cls"], n, vals, max_ops))
    case["fresh"] = draw(BOOL)
    return case


class C07:
    id = "C07"

    def strategy(self, tier):
        return cases(14)

    def enumerated(self, tier):
        top = 6 if tier == "quick" else 9
        steps = (None, 1, 2, 3, -1, -2, -3, 7, -7, 2**63 - 1, -2**63 + 1, 2**70, -2**70)
        for cls in gen.ALL:
            pool = [["o", i] for i in range(40)]
            for n in range(top + 1):
                ends = [None] + list(range(-n - 2, n + 3)) + [2**31, -2**31, 2**63 - 1, -2**63, 2**70, -2**70]
                base = {"cls": cls, "pool": pool, "init": list(range(10, 10 + n)), "fresh": True}
                near = [i for i in ends if i is not None]
                yield dict(base, ops=[["getitem", i] for i in near] + [["setitem", i, 5] for i in near] + [["delitem", i] for i in near])
                for s in steps:
                    yield dict(base, fresh=False, ops=[["getslice", [a, b, s]] for a in ends for b in ends])
                for s in steps:
                    for a in ends:
                        yield dict(base, ops=[["delslice", [a, b, s]] for b in ends])
                for s in (None, 1):
                    for a in ends:
                        for src in ([], [1], [1, 2], [1, 2, 3, 4, 5, 6, 7, 8]):
                            yield dict(base, ops=[["setslice", [a, b, s], ["list", src]] for b in ends])
                        yield dict(base, ops=[["setslice", [a, b, s], ["self"]] for b in ends])
                        yield dict(base, ops=[["setslice", [a, b, s], ["same", [1, 2]]] for b in ends])
                for s in (2, -1, -2):
                    for a in ends[:2 * n + 6]:
                        yield dict(base, ops=[["setslice", [a, b, s], ["list", [1] * k]] for b in ends[:2 * n + 6] for k in (0, 1, 2, 3)])

        for cls, n, base, v, absent in gen.large_bases(tier):
            base["fresh"] = n < 9000
            near = gen.large_places(n)
            near = near + [i - n for i in near]
            yield dict(base, fresh=False, ops=[["getitem", i] for i in near + [n, -n - 1]] + [["setitem", i, absent] for i in near] + [["delitem", i] for i in near])
            cuts = ([None, None], [1, None], [None, -1], [n // 2, None], [None, n // 2], [n // 3, n // 3 * 2], [5, n - 7], [-7, 3], [n, 0], [None, 3])
            for s in (None, 2, 3, 7, -1, -2, -7, n // 2, -(n // 2), n - 1, 1000, -1000):
                yield dict(base, fresh=False, ops=[["getslice", c + [s]] for c in cuts])
                for c in cuts[s is not None and n > 9000 and 6:]:
                    yield dict(base, ops=[["delslice", c + [s]], ["getitem", 0], ["getslice", [None, None, -1]]])
            for k, c in enumerate(cuts):
                for src in (["list", [absent]], ["list", [absent] * 1000], ["list", base["init"]], ["same", base["init"]], ["self"]):
                    yield dict(base, ops=[["setslice", c + [None], src], ["getitem", -1], ["getslice", [None, None, 2]]])
                if n < 9000:
                    yield dict(base, ops=[["setslice", c + [s], ["list", [absent] * len(range(*slice(*c, s).indices(n)))]] for s in (2, -1, 7)])

    def run(self, case, ctx):
        w = World(case)
        init = list(w.model)
        moved = 0
        for k, op in enumerate(case["ops"]):
            name = op[0]
            if name not in NAMES:
                raise Invalid("op")
            if case["fresh"] and k:
                w.model = list(init)
                w.real = w.make(init)
            show = "%s of %s: %s" % (w.cls, w.show(w.model), op)
            r, m = w.real, w.model
            before = len(m)
            if name.startswith("x"):
                # the same through objects with __index__, or a subclass of int
                i = op[2]
                if name in ("xget", "xset", "xdel"):
                    i = wrap(op[1], i)
                else:
                    i = slice(*(wrap(op[1], v) for v in i))
                if name in ("xget", "xslice"):
                    binary(w, show, lambda: r[i], lambda: m[i], elem=name == "xget")
                elif name in ("xdel", "xdelslice"):
                    binary(w, show, lambda: do_del(r, i), lambda: do_del(m, i))
                elif name == "xset":
                    v = w.val(op[3])
                    binary(w, show, lambda: do_set(r, i, v), lambda: do_set(m, i, v))
                else:
                    s, ms = w.src(op[3])
                    binary(w, show, lambda: do_set(r, i, s), lambda: do_set(m, i, list(ms)))
            else:
                step(w, op)
            w.check_state("after " + show, full=k % 8 == 0 and before < 300)
            moved += before > 0
            ctx.label(name)
        w.check_state("at the end")
        ctx.nt(moved > 0)


CHECK = C07()
