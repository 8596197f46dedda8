"""C09: iteration is exact and survives modification."""

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import World
from pbt.engine import Invalid, Violation
from pbt.ops import MUTATORS, step

END = object()
MUT = {"append": 4, "extend": 1, "insert": 5, "pop": 3, "popi": 4, "remove": 2, "clear": 1, "reverse": 2, "sort": 1,
       "setitem": 3, "delitem": 4, "setslice": 3, "delslice": 3, "delslicex": 1, "iadd": 1, "imul": 1, "resize": 1}


@gen.cached
def ops(cls, n, vals, max_ops):
    who = st.integers(0, 4)
    steps = st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(0, n + 2))
    op = gen.pick(gen.op_table(cls, n, vals), MUT)
    return st.lists(st.one_of(gen.cmd("next", who, steps), gen.cmd("next", who, steps), gen.cmd("next", who, steps), gen.cmd("next", who, steps),
                              op, op, op, op,
                              gen.cmd("iter"), gen.cmd("rev"), gen.cmd("iter"), gen.cmd("rev"),
                              gen.cmd("drain", who), gen.cmd("drop", who), gen.cmd("self", who), gen.cmd("forget")),
                    min_size=2, max_size=max_ops)


@st.composite
def cases(draw, max_ops):
    case, n, vals = draw(gen.worlds(max_n=120, large=20000))
    case["first"] = draw(st.sampled_from(["iter", "rev", "both", "loop", "loop"]))
    if case["first"] == "loop":
        # a for loop whose body modifies the container
        case["body"] = draw(ops(case["cls"], n, vals, 4))
        case["rev"] = draw(st.booleans())
        return case
    case["ops"] = draw(ops(case["cls"], n, vals, max_ops))
    return case


class C09:
    id = "C09"

    def strategy(self, tier):
        return cases(24)

    def enumerated(self, tier):
        # one iterator, one or two modifications at every point, every tiny length
        top = 4 if tier == "quick" else 6
        for cls in gen.ALL:
            pool = [["o", i] for i in range(30)]
            for n in range(top + 1):
                muts = [["append", 9], ["pop"], ["clear"], ["reverse"], ["extend", ["list", [7, 8]]], ["imul", 2], ["imul", 0]]
                for i in range(n + 1):
                    muts += [["insert", i, 9]]
                    if i < n:
                        muts += [["popi", i], ["delitem", i], ["setitem", i, 9], ["remove", i], ["delslice", [i, None, None]], ["setslice", [i, i + 2, None], ["list", [6]]]]
                for rev in ("iter", "rev"):
                    for k in range(n + 2):
                        for a in muts:
                            base = {"cls": cls, "pool": pool, "init": list(range(n)), "first": rev}
                            yield dict(base, ops=[["next", 0, k], a, ["next", 0, 1], ["drain", 0], ["append", 3], ["next", 0, 1]])
                            if n <= 3:
                                for b in muts:
                                    yield dict(base, ops=[["next", 0, k], a, ["next", 0, 1], b, ["drain", 0], ["append", 3], ["next", 0, 1]])
                            if 0 < n <= top - 2:
                                for b in muts:
                                    if cls in ("ILL", "OLL") or a[0] in ("append", "insert", "remove", "popi", "clear"):
                                        yield dict(base, ops=[["next", 0, k], a, b, ["next", 0, 1], ["drain", 0]])
            for n in (0, 1, 2, 63, 64, 65, 300):
                for first in ("iter", "rev", "both"):
                    yield {"cls": cls, "pool": pool, "init": ["lin", n, 7, 3, 29], "first": first, "ops": [["next", 0, n // 2], ["drain", 1], ["drain", 0], ["next", 0, 2]]}
                    yield {"cls": cls, "pool": pool, "init": ["lin", n, 7, 3, 29], "first": first, "ops": [["next", 0, n // 2], ["forget"], ["drain", 1], ["drain", 0], ["next", 0, 2]]}

        # so many modifications between two steps that a counter of them may wrap around
        for cls in gen.ALL:
            base = {"cls": cls, "pool": gen.LARGE_POOL, "init": list(range(40))}
            for wrap in (256, 65536):
                for d in range(-6, 3):
                    if wrap > 256 and not -4 <= d <= 1:
                        continue
                    for rev in ("iter", "rev"):
                        for a in (["popi", 0], ["delitem", 20], ["popi", 39], ["insert", 3, 77], ["delslice", [5, 30, None]]):
                            yield dict(base, first=rev, ops=[["next", 0, 20], a, ["churn", wrap + d], ["next", 0, 2], ["drain", 0]])
            for first in ("iter", "rev"):
                yield dict(base, first=first, ops=[["next", 0, 3]] + [["iter"], ["rev"]] * 200 + [["next", i, i % 9] for i in range(0, 401, 3)] + [["popi", 4], ["append", 3]] +
                           [["next", i, 2] for i in range(0, 401, 7)] + [["drop", i] for i in range(0, 100, 3)] + [["drain", i] for i in range(0, 300, 5)])
        # an iterator at some place of a large container, and one to three modifications
        for cls, n, base, v, absent in gen.large_bases(tier, sizes=(601, 1025, 4099, 20003), more=(70003,)):
            muts = [["append", absent], ["pop"], ["reverse"], ["insert", 0, absent], ["insert", 1, absent], ["popi", 0], ["delitem", 1], ["insert", n // 2, absent],
                    ["popi", n // 2], ["setitem", n // 2, absent], ["delslice", [3, 9, None]], ["setslice", [1, 1, None], ["list", [absent] * 3]],
                    ["delslice", [None, None, 2]], ["remove", v(2)], ["extend", ["list", [absent]]], ["clear"]]
            for rev in ("iter", "rev"):
                for j, k in enumerate((0, 1, 5, n // 2, n - 2)):
                    yield dict(base, first=rev, ops=[["next", 0, k], ["drain", 0], ["append", absent], ["next", 0, 1]])
                    for i, a in enumerate(muts):
                        for b in (None, a, muts[(i * 3 + j) % 16], muts[(i * 5 + j + 1) % 16]) if n < 20000 else (a, muts[(i * 3 + j) % 16]):
                            if n > 5000 and (i + j) % 4:
                                continue
                            yield dict(base, first=rev, ops=[["next", 0, k], a] + ([b] if b else []) + [["next", 0, 2], a, ["drain", 0]])

    def run(self, case, ctx):
        w = World(case)
        if case["first"] == "loop":
            return self.loop(w, case, ctx)
        its = []
        first = case["first"]
        if first in ("iter", "both"):
            its.append([iter(w.real), iter(w.model), "iter"])
        if first in ("rev", "both"):
            its.append([reversed(w.real), reversed(w.model), "reversed"])
        live = changed = 0
        forgotten = False
        for k, op in enumerate(case["ops"]):
            name = op[0]
            if name == "iter" and not forgotten:
                its.append([iter(w.real), iter(w.model), "iter"])
            elif name == "rev" and not forgotten:
                its.append([reversed(w.real), reversed(w.model), "reversed"])
            elif name in ("next", "drain", "self", "drop"):
                if not its:
                    continue
                it = its[op[1] % len(its)]
                if name == "next":
                    if not 0 <= op[2] <= 100000:
                        raise Invalid("steps")
                    for _ in range(op[2]):
                        if self.advance(w, it, k, case):
                            break
                    live += changed
                elif name == "drain":
                    for _ in range(300000):
                        if self.advance(w, it, k, case):
                            break
                    self.advance(w, it, k, case)
                    live += changed
                elif name == "self":
                    if iter(it[0]) is not it[0]:
                        raise Violation("step %d: iter() of an iterator is another object" % k)
                else:
                    its.remove(it)
            elif name == "churn" and not forgotten:
                # many modifications that leave nothing behind
                if not 0 <= op[1] <= 140000:
                    raise Invalid("churn")
                x = w.val(1)
                for i in range(op[1] // 2):
                    w.real.append(x)
                    w.real.pop()
                    changed += 1
                if op[1] % 2:
                    w.real.append(x)
                    w.model.append(x)
            elif name == "churn":
                continue
            elif name == "forget":
                # the iterators have to keep the container alive
                w.real = None
                forgotten = True
            elif not forgotten:
                if len(w.model) > 100000:
                    continue
                if name in ("iter", "rev"):
                    continue
                step(w, op)
                changed += name in MUTATORS
            ctx.label("op:" + name)
            if len(its) > 600:
                del its[0]
        if not forgotten:
            w.check_state("at the end")
        ctx.nt(live > 0 or (forgotten and len(w.model) > 0))

    def advance(self, w, it, k, case):
        real, model, kind = it
        try:
            a = next(real)
        except StopIteration:
            a = END
        except Exception as e:
            raise Violation("step %d: next(%s) of %s raised %r" % (k, kind, w.cls, e))
        b = next(model, END)
        if a is END or b is END:
            if a is not b:
                raise Violation("step %d: next(%s) of %s %s, a list iterator %s" % (
                    k, kind, w.cls, "ended" if a is END else "gave %r" % (a,), "ended" if b is END else "gives %r" % (b,)))
            return True
        if not w.eqv(a, b):
            raise Violation("step %d: next(%s) of %s gave %r, a list iterator gives %r" % (k, kind, w.cls, a, b))
        return False

    def loop(self, w, case, ctx):
        body = [op for op in case["body"] if op[0] in MUTATORS]
        r, m = w.real, w.model
        model_it = reversed(m) if case["rev"] else iter(m)
        state = {"done": 0}

        def act(n):
            if body and len(w.model) < 2000:
                # the model's iterator is one element ahead of the body, like the loop
                step(w, body[n % len(body)])
                state["done"] += 1

        n = 0
        for v in (reversed(r) if case["rev"] else r):
            e = next(model_it, END)
            if e is END or not w.eqv(v, e):
                raise Violation("round %d of a %s loop over %s gave %r, a list gives %s" % (
                    n, "reversed" if case["rev"] else "for", w.cls, v, "the end" if e is END else repr(e)))
            if n < 40:
                act(n)
            n += 1
            if n > 3000:
                break
        else:
            e = next(model_it, END)
            if e is not END:
                raise Violation("a %s loop over %s ended after %d rounds, a list goes on with %r" % ("reversed" if case["rev"] else "for", w.cls, n, e))
        w.check_state("after the loop")
        ctx.label("loop")
        ctx.nt(state["done"] > 0)


CHECK = C09()
