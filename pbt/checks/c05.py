"""C05: in, index, count and remove find the right element."""
from hypothesis import strategies as st

from pbt import gen
from pbt.cont import RANGE, Boom, World, run_both, spec_object
from pbt.engine import Invalid, Violation


@gen.cached
def ops(n, vals, max_ops):
    needle = st.one_of(vals.map(lambda v: ["v", v]), st.integers(0, max(n - 1, 0)).map(lambda i: ["at", i]),
                       st.integers(0, max(n - 1, 0)).map(lambda i: ["eq", i]), st.integers(0, max(n - 1, 0)).map(lambda i: ["at", i]),
                       gen.odd_specs.map(lambda s: ["s", s]),
                       st.sampled_from(gen.B64 + [2**63, 2**64, 2**64 + 1, -2**64, 2**32 + 3, 2**100]).map(lambda v: ["s", ["i", v]]))
    f = gen.far_indices(n)
    op = st.one_of(gen.cmd("in", needle), gen.cmd("count", needle), gen.cmd("remove", needle), gen.cmd("index", needle),
                   gen.cmd("index", needle, f), gen.cmd("index", needle, f, f), gen.cmd("index", needle, gen.indices(n), gen.indices(n)),
                   gen.cmd("alias", needle, st.integers(0, max(n - 1, 0))))
    return st.lists(op, min_size=1, max_size=max_ops)


NEEDLE_POOLS = st.one_of(gen.odd_pools, gen.homogeneous_pools, gen.homogeneous_pools, st.just(gen.DEFAULT_POOL))


@st.composite
def cases(draw, max_ops):
    case, n, vals = draw(gen.worlds(max_n=200, pool_strategy=NEEDLE_POOLS, hows=("list", "append", "gen"), large=100000))
    case["ops"] = draw(ops(n, vals, max_ops))
    return case


class C05:
    id = "C05"

    def strategy(self, tier):
        return cases(12)

    def enumerated(self, tier):
        # every start and stop for every position in lists of up to 4 elements
        for cls in gen.ALL:
            for n in range(5):
                for v in range(n + 1):
                    ops = [["index", ["v", v], a, b] for a in range(-n - 2, n + 3) for b in range(-n - 2, n + 3)]
                    ops += [["index", ["v", v], a] for a in range(-n - 2, n + 3)]
                    yield {"cls": cls, "pool": [["o", i] for i in range(6)], "init": list(range(n)), "ops": ops}
        # a single match (or two) at every position of longer lists
        for cls in gen.ALL:
            for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130):
                for p in range(n):
                    base = [0] * n
                    base[p] = 1
                    ops = [["in", ["v", 1]], ["count", ["v", 1]], ["count", ["v", 0]], ["index", ["v", 1]],
                           ["index", ["v", 1], p], ["index", ["v", 1], p + 1], ["index", ["v", 1], 0, p],
                           ["index", ["v", 1], p, p + 1], ["index", ["v", 1], p - n, n], ["remove", ["v", 1]], ["in", ["v", 1]]]
                    yield {"cls": cls, "pool": [["o", 0], ["o", 1]], "init": base, "ops": ops}

        # a single match at a few places of large containers
        for cls, n, base, v, absent in gen.large_bases(tier):
            for p in gen.large_places(n):
                x = ["v", absent]
                q = n - 3 if p != n - 3 else 3
                yield dict(base, ops=[["in", x], ["count", x], ["index", x], ["alias", x, p], ["in", x], ["count", x], ["index", x], ["index", x, p],
                                      ["index", x, p + 1], ["index", x, 0, p], ["index", x, p, p + 1], ["index", x, p - n, n], ["alias", x, q],
                                      ["count", x], ["index", x, min(p, q) + 1], ["remove", x], ["in", x], ["count", x], ["index", x], ["remove", x], ["in", x],
                                      ["count", ["at", 5]], ["count", ["at", n - 9]]])

    def needle(self, w, spec):
        k, v = spec
        if k == "v":
            return w.val(v), False
        n = len(w.model)
        if k in ("at", "eq"):
            if not n:
                return w.val(0), False
            x = w.model[v % n]
            if k == "at":
                return x, False
            # equal, but another object
            if type(x) is int:
                return int(str(x)), False
            if type(x) is float:
                return float(repr(x)), False
            if type(x) is str:
                return "".join(list(x)), False
            if type(x) is list:
                return list(x), False
            if type(x).__name__ == "Obj":
                return type(x)(x.key, -1), False
            return x, False
        if k == "s":
            x = spec_object(v, 0)
            if w.obj:
                return x, False
            return x, not isinstance(x, int) or not RANGE[w.cls][0] <= x <= RANGE[w.cls][1]
        raise Invalid("needle")

    def run(self, case, ctx):
        w = World(case)
        hits = 0
        for op in case["ops"]:
            name = op[0]
            v, foreign = self.needle(w, op[1])
            r, m = w.real, w.model
            args = op[2:]
            if not all(isinstance(x, int) for x in args):
                raise Invalid("args")
            far = any(abs(x) > 2**63 - 1 for x in args)
            what = "%s of %s %s(%r%s)" % (w.cls, w.show(m), name, v, "".join(", %d" % x for x in args))
            before = list(m)
            if name == "in":
                a, b = run_both(lambda: v in r, lambda: v in m)
            elif name == "count":
                a, b = run_both(lambda: r.count(v), lambda: m.count(v))
            elif name == "remove":
                a, b = run_both(lambda: r.remove(v), lambda: m.remove(v))
            elif name == "index":
                a, b = run_both(lambda: r.index(v, *args), lambda: m.index(v, *args))
            elif name == "alias":
                if m and not foreign:
                    r[args[0] % len(m)] = v
                    m[args[0] % len(m)] = v
                continue
            else:
                raise Invalid("op")
            ok = False
            if foreign and not isinstance(v, int):
                # the int containers hold ints only and may treat anything else as absent, or refuse it
                ok = (a == ("ok", False) and name == "in") or (a == ("ok", 0) and name == "count") or \
                     (a[0] == "exc" and isinstance(a[1], (TypeError, ValueError)) and name != "in") or \
                     (a[0] == "exc" and isinstance(a[1], Boom))
                if ok:
                    w.model[:] = before
            elif foreign:
                ok = a[0] == "exc" and isinstance(a[1], OverflowError) and name != "in"
            elif far and a[0] == "exc" and isinstance(a[1], OverflowError):
                ok = True
            if not ok:
                if a[0] != b[0]:
                    raise Violation("%s: %r, a list: %r" % (what, a[1], b[1]))
                if a[0] == "exc":
                    if not isinstance(a[1], type(b[1])):
                        raise Violation("%s raised %r, a list raises %r" % (what, a[1], b[1]))
                elif type(a[1]) is not type(b[1]) or a[1] != b[1]:
                    raise Violation("%s gave %r, a list gives %r" % (what, a[1], b[1]))
            if name == "remove" or foreign:
                w.check_state("after " + what, full=len(m) < 50)
            ctx.label("%s:%s" % (name, "found" if b[0] == "ok" and b[1] not in (0, False) else "absent"))
            hits += len(m) > 0 and (b[0] == "ok")
        w.check_state("at the end")
        ctx.nt(hits > 0)


CHECK = C05()
