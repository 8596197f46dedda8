"""C06: concatenation and repetition."""
import operator

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import ALL_TYPES, LINKED, Index, IntSub, World, run_both
from pbt.engine import Invalid, Violation
from pbt.ops import check_new

ADD_KINDS = ("list", "list", "same", "same", "listsub", "sub", "tuple", "IAL", "BIAL", "ILL", "OAL", "OLL", "gen")


@gen.cached
def ops(cls, vals, max_ops):
    rep = st.one_of(st.integers(-3, 6), st.integers(-3, 6), st.sampled_from([0, 1, 7, 16, 33, -2**31, -2**63]))
    kind = st.sampled_from(["int", "int", "int", "bool", "index", "intsub"])
    big = gen.sources(cls, vals, max_size=12)
    op = st.one_of(
        gen.cmd("add", gen.sources(cls, vals, max_size=12, kinds=ADD_KINDS)),
        gen.cmd("add", gen.sources(cls, vals, max_size=12, kinds=("list", "same"))),
        gen.cmd("add", gen.sources(cls, vals, max_size=12, kinds=("list", "same", "same")), st.just("only")),
        gen.cmd("mul", rep, kind), gen.cmd("rmul", rep, kind), gen.cmd("imul", rep, kind), gen.cmd("iadd", big),
        gen.cmd("bad", st.sampled_from(["+", "*", "r*", "+=", "*="]), st.sampled_from(["none", "float", "str", "obj", "dict"])),
        gen.cmd("huge", st.sampled_from(["*", "r*", "*="]), st.sampled_from([2**63 - 1, 2**62, 2**60, 2**59 + 1, 2**63, 2**64])),
        gen.cmd("keep"), gen.cmd("swap"), gen.cmd("pop"), gen.cmd("append", vals))
    return st.lists(op, min_size=1, max_size=max_ops)


@st.composite
def cases(draw, max_ops):
    case, n, vals = draw(gen.worlds(max_n=200, large=70000))
    case["ops"] = draw(ops(case["cls"], vals, max_ops))
    return case


BAD = {"none": None, "float": 2.0, "str": "ab", "obj": object(), "dict": {}}


class C06:
    id = "C06"

    def strategy(self, tier):
        return cases(10)

    def enumerated(self, tier):
        for cls in gen.ALL:
            for n in (0, 1, 2, 3, 8, 33):
                base = {"cls": cls, "pool": [["o", i] for i in range(40)], "init": list(range(n))}
                for k in list(range(-2, 20)) + [31, 32, 33, 64, 100]:
                    yield dict(base, ops=[["mul", k, "int"], ["rmul", k, "int"], ["imul", k, "int"], ["imul", 2, "int"]])
                for k in range(0, 20):
                    for kind in ("list", "same", "listsub", "sub"):
                        yield dict(base, ops=[["add", [kind, list(range(k))], "only"], ["add", [kind, list(range(k))]], ["iadd", [kind, list(range(k))]], ["iadd", ["self"]],
                                              ["add", ["self"]]])

        for cls, n, base, v, absent in gen.large_bases(tier, sizes=(601, 4099, 20003, 70003), more=(131075,)):
            for kind in ("list", "same", "listsub", "sub"):
                yield dict(base, ops=[["add", [kind, base["init"]], "only"], ["add", [kind, base["init"]]], ["add", [kind, [absent]]], ["iadd", [kind, base["init"]]]])
            for kind in ("tuple", "gen", "IAL", "BIAL", "ILL", "OAL", "OLL"):
                yield dict(base, ops=[["iadd", [kind, base["init"]]], ["add", ["self"]]])
            yield dict(base, ops=[["iadd", ["self"]], ["add", ["self"]]])
            for k in (1, 2, 3, 4):
                yield dict(base, ops=[["mul", k, "int"], ["rmul", k, "int"], ["imul", k, "int"], ["append", absent]])
        for cls in gen.ALL:
            for n, k in ((1, 70000), (2, 5000), (3, 257), (3, 300), (3, 1000), (3, 33001), (7, 9001), (33, 129), (100, 65), (255, 257), (1000, 66), (5001, 3), (9001, 7), (40001, 3)):
                yield {"cls": cls, "pool": gen.LARGE_POOL, "init": ["lin", n, 1, 0, 97],
                       "ops": [["mul", k, "int"], ["rmul", k, "int"], ["imul", k, "int"], ["append", 5]]}

    def count(self, k, kind):
        return {"int": int, "bool": lambda k: bool(k % 2), "index": Index, "intsub": IntSub}[kind](k)

    def run(self, case, ctx):
        w = World(case)
        kept = []                    # earlier results and operands, with what they have to hold
        done = 0
        for op in case["ops"]:
            name = op[0]
            r, m = w.real, w.model
            what = "%s of %s: %s" % (w.type.__name__, w.show(m), w.show(op))
            if name in ("add", "iadd"):
                s, ms = w.src(op[1])
                ms = list(ms)
                again = op[1][0] in ("list", "tuple", "same", "listsub", "sub", "IAL", "BIAL", "ILL", "OAL", "OLL", "self")
                if name == "add":
                    try:
                        if len(op) > 2 and s is not r:
                            # nothing else holds the operands
                            box = (r, s)
                            w.real = r = s = None
                            try:
                                y = operator.add(*box)
                            finally:
                                w.real, s = box
                                r = w.real
                                del box
                        else:
                            y = r + s
                    except TypeError:
                        if op[1][0] in ("list", "same", "self") and not case.get("sub"):
                            raise Violation("%s raised TypeError" % what)
                        ctx.label("add refused:" + op[1][0])
                        continue
                    except Exception as e:
                        raise Violation("%s raised %r" % (what, e))
                    self.result(w, what, y, m + ms)
                    kept.append((y, m + ms))
                    if again and s is not r and not w.eql([x for x in s], ms):
                        raise Violation("%s changed its right operand to %s" % (what, w.show(list(s))))
                else:
                    x = r
                    try:
                        x += s
                    except Exception as e:
                        raise Violation("%s raised %r" % (what, e))
                    if x is not r:
                        raise Violation("%s: += did not evaluate to the container" % what)
                    m += ms
                    if again and s is not r and not w.eql([x for x in s], ms):
                        raise Violation("%s changed its right operand to %s" % (what, w.show(list(s))))
                ctx.label("%s:%s" % (name, op[1][0]))
                done += bool(ms)
            elif name in ("mul", "rmul", "imul"):
                k = self.count(op[1], op[2])
                if abs(op[1]) * len(m) > 400000 and op[1] > 0:
                    continue
                kk = k.__index__()
                if name != "imul":
                    a, b = run_both((lambda: r * k) if name == "mul" else (lambda: k * r), lambda: m * kk)
                    if a[0] == "exc":
                        if op[2] == "index" and isinstance(a[1], TypeError):
                            continue         # a list takes objects with __index__; ints are what is promised
                        raise Violation("%s raised %r" % (what, a[1]))
                    self.result(w, what, a[1], b[1])
                    if type(a[1]) is list:
                        raise Violation("%s gave a list" % what)
                    kept.append((a[1], b[1]))
                else:
                    x = r
                    try:
                        x *= k
                    except TypeError as e:
                        if op[2] == "index":
                            continue
                        raise Violation("%s raised %r" % (what, e))
                    except Exception as e:
                        raise Violation("%s raised %r" % (what, e))
                    if x is not r:
                        raise Violation("%s: *= did not evaluate to the container" % what)
                    m *= kk
                ctx.label(name)
                done += bool(m)
            elif name in ("bad", "huge"):
                o = op[1]
                k = BAD[op[2]] if name == "bad" else op[2]
                if name == "huge" and w.cls in LINKED:
                    k = max(k, 2**62)        # (refused by the size alone; less would really be built node by node)
                if o == "+=" and isinstance(k, (str, dict)):
                    continue
                try:
                    if o == "+":
                        y = r + k
                    elif o == "*":
                        y = r * k
                    elif o == "r*":
                        y = k * r
                    else:
                        x = r
                        if o == "+=":
                            x += k
                        else:
                            x *= k
                        y = x
                except SystemError as e:
                    raise Violation("%s raised %r" % (what, e))
                except Exception:
                    pass
                else:
                    if name == "bad" or m:
                        raise Violation("%s gave %s" % (what, w.show(y)))
                    if len(y):
                        raise Violation("%s gave %s" % (what, w.show(y)))
                w.check_state("after refused " + what)
                ctx.label(name)
            elif name == "keep":
                kept.append((r.copy(), list(m)))
            elif name == "swap":
                # go on with an earlier result
                for i, (y, my) in enumerate(kept):
                    if isinstance(y, w.type) and len(my) < 2000:
                        kept[i] = (w.real, w.model)
                        w.real, w.model = y, my
                        break
            elif name == "pop":
                if m:
                    if not w.eqv(r.pop(), m.pop()):
                        raise Violation("%s: pop is wrong" % what)
            elif name == "append":
                v = w.val(op[1])
                r.append(v)
                m.append(v)
            else:
                raise Invalid("op")
            if len(m) > 400000:
                break
            w.check_state("after " + what, full=len(m) < 300)
            if len(kept) > 8:
                del kept[0]
            for y, my in kept:
                if not w.eql(y if type(y) is list else y.to_list(), my):
                    raise Violation("%s: changed an earlier result or operand to %s, expected %s" %
                                    (what, w.show(y if type(y) is list else y.to_list()), w.show(my)))
        w.check_state("at the end")
        ctx.nt(done >= 1)

    def result(self, w, what, y, expected):
        if type(y) is not list and not isinstance(y, ALL_TYPES):
            raise Violation("%s gave %r" % (what, y))
        if y is w.real:
            raise Violation("%s gave the operand itself" % what)
        if not w.eql(y if type(y) is list else y.to_list(), expected):
            raise Violation("%s gave %s, expected %s" % (what, w.show(y if type(y) is list else y.to_list()), w.show(expected)))
        if type(y) is not list:
            check_new(w, what, y, expected)
            if expected:
                y.insert(0, y.pop())


CHECK = C06()
