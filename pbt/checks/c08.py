"""C08: construction, from_range, copy and to_list; independence of the results."""
from hypothesis import strategies as st

from pbt import gen
from pbt.cont import ALL_TYPES, ARRAYS, CLASSES, RANGE, SOURCE_KINDS, SUBCLASSES, World
from pbt.engine import Invalid, Violation
from pbt.ops import step

LIMIT = 5000
DERIVE = ("copy", "to_list", "slice", "ctor", "ctor_sub", "list", "tuple", "ctor_kw", "ctor_cap", "add0", "mul1", "iter", "py_list_extend", "only", "only_map", "only_iter")


@gen.cached
def ops(cls, n, vals, max_ops):
    op = gen.pick(gen.op_table(cls, n, vals), {
        "append": 3, "pop": 2, "popi": 2, "insert": 2, "setitem": 4, "delitem": 2, "clear": 1, "reverse": 3, "sort": 2,
        "setslice": 2, "delslice": 2, "iadd": 2, "imul": 1, "extend": 2, "remove": 1})
    who = st.integers(0, 5)
    return st.lists(st.one_of(
        st.tuples(st.just("derive"), who, st.sampled_from(DERIVE)).map(list),
        st.tuples(st.just("op"), who, op).map(list), st.tuples(st.just("op"), who, op).map(list),
        st.tuples(st.just("drop"), who).map(list)), min_size=2, max_size=max_ops)


@st.composite
def histories(draw, max_ops):
    case, n, vals = draw(gen.worlds(max_n=200, large=100000))
    case["kind"] = "history"
    case["how"] = draw(st.sampled_from(SOURCE_KINDS + ("append", "extend", "size", "kw", "cap", "cap", "over")))
    case["ops"] = draw(ops(case["cls"], n, vals, max_ops))
    return case


@st.composite
def ranges(draw):
    cls = draw(st.sampled_from(gen.INTS))
    lo, hi = RANGE[cls]
    nargs = draw(st.integers(1, 3))
    b = gen.B64 if cls == "BIAL" else gen.B32
    start = draw(st.one_of(st.integers(-20, 20), st.sampled_from(b), st.integers(lo, hi)))
    count = draw(st.one_of(st.integers(0, 20), st.integers(0, 300), st.sampled_from([0, 1, 7, 8, 9, 16, 17, 64, 65])))
    step = draw(st.one_of(st.sampled_from([1, 1, -1, 2, -2, 3, -3, 7, 255, 256, 2**16, -2**31, 2**31 - 1, 2**62, -2**62]),
                          st.integers(-50, 50).filter(bool), st.integers(lo, hi).filter(bool)))
    stop = start + count * step + draw(st.integers(-2, 2))
    if draw(st.integers(0, 5)) == 0:
        stop = draw(st.one_of(st.sampled_from(b), st.integers(lo, hi)))
    args = [stop] if nargs == 1 else [start, stop] if nargs == 2 else [start, stop, step]
    return {"kind": "range", "cls": cls, "args": args}


class Idx:
    """An integer for __index__, but no int and not iterable."""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


class IntSub(int):
    pass


SIZES = (0, 1, 2, 7, 8, 9, 64, 1000, 2**20, -1, -2, -2**31, -2**63, 2**61 + 7, 2**62, 2**63 - 1, 2**63, 2**64, 2**64 + 3, 2**70, -2**63 - 1, -2**70)
SIZE_KINDS = {"int": int, "sub": IntSub, "idx": Idx, "bool": lambda v: bool(v & 1), "float": lambda v: float(v), "none": lambda v: None, "str": str}


@st.composite
def sizes(draw):
    """Constructor calls with an expected size: [n elements or None or a size, size or None, how it is passed]."""
    size = st.tuples(st.sampled_from(sorted(SIZE_KINDS)), st.one_of(st.sampled_from(SIZES), st.integers(-100, 5000))).map(list)
    first = draw(st.one_of(st.integers(0, 40), size, st.none()))
    how = "pos" if first is not None and draw(st.booleans()) else "kw"
    return {"kind": "size", "cls": draw(st.sampled_from(gen.ALL)), "first": first, "size": draw(st.one_of(size, size, st.none())),
            "how": how, "src": draw(st.sampled_from(["list", "tuple", "gen", "same", "iter"])), "sub": draw(st.booleans()),
            "init": draw(st.integers(0, 2))}


class C08:
    id = "C08"

    def strategy(self, tier):
        return st.one_of(histories(14), histories(14), ranges(), ranges(), ranges(), sizes())

    def enumerated(self, tier):
        top = 6 if tier == "quick" else 10
        for cls in gen.INTS:
            for a in range(-top, top + 1):
                yield {"kind": "range", "cls": cls, "args": [a]}
                for b in range(-top, top + 1):
                    yield {"kind": "range", "cls": cls, "args": [a, b]}
                    for s in (1, 2, 3, 4, 5, -1, -2, -3, -4, -5, 100, -100):
                        yield {"kind": "range", "cls": cls, "args": [a, b, s]}
            lo, hi = RANGE[cls]
            edge = [hi, hi - 1, hi - 5, lo, lo + 1, lo + 5]
            big = [2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 2**31 - 1, -2**31, 1, -1, 2**62, -2**62]
            for a in edge:
                for b in edge:
                    for s in big:
                        yield {"kind": "range", "cls": cls, "args": [a, b, s]}
        for cls in gen.ALL:
            for how in SOURCE_KINDS + ("append", "extend", "size", "kw", "cap", "over", "insert0"):
                for n in (0, 1, 2, 3, 7, 8, 9, 17, 33, 65, 200):
                    yield {"kind": "history", "cls": cls, "pool": [["o", i] for i in range(250)], "init": list(range(n)), "how": how,
                           "ops": [["derive", 0, d] for d in DERIVE] + [["op", 0, ["append", 1]], ["op", 0, ["reverse"]]]}
        for cls in gen.ALL:
            for k in sorted(SIZE_KINDS):
                for v in SIZES:
                    for init in (0, 1, 2):
                        for how in ("pos", "kw"):
                            yield {"kind": "size", "cls": cls, "first": [k, v], "size": None, "how": how, "src": "list", "sub": False, "init": init}
                            for n in (0, 3, 20):
                                yield {"kind": "size", "cls": cls, "first": n, "size": [k, v], "how": how, "src": ["list", "gen", "same"][init],
                                       "sub": False, "init": init}
                            yield {"kind": "size", "cls": cls, "first": [k, v], "size": ["int", 5], "how": how, "src": "list", "sub": True, "init": init}
        for cls, n, base, v, absent in gen.large_bases(tier):
            for how in SOURCE_KINDS + ("append", "extend", "size", "kw", "cap", "over"):
                if n < 60000 or how in ("list", "gen", "same", "size", "kw", "IAL", "ILL"):
                    yield dict(base, kind="history", how=how, ops=[["op", 0, ["append", absent]], ["op", 0, ["reverse"]]])
            for d in DERIVE:
                for who in (0, 1):
                    yield dict(base, kind="history", how="list", ops=[["derive", 0, d], ["op", who, ["append", absent]], ["op", who, ["reverse"]], ["op", 1 - who, ["pop"]],
                                                                     ["drop", who]])
        for cls in gen.INTS:
            for n in (1025, 4099, 20003, 70003):
                for a, s in ((0, 1), (5, 1), (-n, 1), (n, -1), (-7, 3), (7, -5)):
                    for d in (0, 1, -1):
                        yield {"kind": "range", "cls": cls, "args": [a, a + n * s + d, s]}
                yield {"kind": "range", "cls": cls, "args": [n]}
        for cls in gen.ALL:
            for d in DERIVE:
                for op in (["append", 3], ["clear"], ["reverse"], ["setitem", 0, 3], ["pop"], ["delitem", 0], ["imul", 2], ["sort", {"r": 1, "k": None}]):
                    for who in (0, 1):
                        for n in (1, 2, 10, 70):
                            yield {"kind": "history", "cls": cls, "pool": [["o", i] for i in range(100)], "init": list(range(n)), "how": "list",
                                   "ops": [["derive", 0, d], ["op", who, op], ["derive", 1, "copy"], ["op", 0, ["append", 0]], ["drop", 0], ["op", 0, op]]}

    def run(self, case, ctx):
        if case["kind"] == "range":
            return self.range(case, ctx)
        if case["kind"] == "size":
            return self.size(case, ctx)
        if case["kind"] != "history":
            raise Invalid("kind")
        how = case["how"]
        c = dict(case)
        c.pop("how")
        w = World(c)
        src = None
        vals = w.model
        T = w.type
        if how in ("append", "extend", "size", "insert0"):
            w.real = w.make(vals, how)
        elif how == "kw":
            src = list(vals)
            w.real = T(iterable=src)
        elif how in ("cap", "over"):
            src = list(vals)
            k = 0 if how == "over" else len(vals) + 7
            w.real = T(src, k) if w.cls in ARRAYS else T(src)
        else:
            src = w.source(how, vals)
            if how in CLASSES and not w.obj or how in ("IAL", "BIAL", "ILL"):
                # elements may have been converted by the source
                if type(src) is not list:
                    w.model = vals = src.to_list()
            w.real = T(src)
        if type(w.real) is not T:
            raise Violation("%s(...) is a %s" % (T.__name__, type(w.real).__name__))
        w.check_state("%s built from %s" % (T.__name__, how))
        worlds = [w]
        if isinstance(src, (list,) + ALL_TYPES):
            s = World.__new__(World)
            s.cls, s.obj, s.type, s.pool = w.cls, w.obj, type(src), w.pool
            s.model, s.real = list(vals), src
            src = None
            worlds.append(s)
        changes = 0
        for item in case["ops"]:
            if item[0] == "derive":
                a = worlds[item[1] % len(worlds)]
                d = self.derive(a, item[2])
                if d is not None:
                    worlds.append(d)
                ctx.label("derive:" + item[2])
            elif item[0] == "drop":
                if len(worlds) > 1:
                    del worlds[item[1] % len(worlds)]
            elif item[0] == "op":
                a = worlds[item[1] % len(worlds)]
                if len(a.model) > 200000:
                    continue
                if isinstance(a.real, ALL_TYPES):
                    if type(a.real) in (CLASSES[a.cls], SUBCLASSES[a.cls]):
                        step(a, item[2])
                    else:
                        a.real.reverse()
                        a.model.reverse()
                else:
                    a.real.reverse()
                    a.real.append(a.model[0] if a.model else None)
                    a.model.reverse()
                    a.model.append(a.model[-1] if a.model else None)
                changes += 1
            else:
                raise Invalid("item")
            for i, a in enumerate(worlds):
                if isinstance(a.real, ALL_TYPES):
                    a.check_state("object %d after %s" % (i, item), full=False)
                elif not (len(a.real) == len(a.model) and all(x is y or x == y for x, y in zip(a.real, a.model))):
                    raise Violation("list %d after %s: %s, expected %s" % (i, item, w.show(a.real), w.show(a.model)))
            if len(worlds) > 8:
                del worlds[1]
        for i, a in enumerate(worlds):
            if isinstance(a.real, ALL_TYPES):
                a.check_state("object %d at the end" % i)
        ctx.label("how:" + how)
        ctx.nt(changes > 0 and len(worlds) > 1)

    def size(self, case, ctx):
        """An expected size changes nothing but the room reserved; an impossible one may be refused."""
        cls = case["cls"]
        first, size, init = case["first"], case["size"], case["init"]
        for x in (first, size):
            if isinstance(x, list) and (len(x) != 2 or x[0] not in SIZE_KINDS):
                raise Invalid("size")
        T = (SUBCLASSES if case["sub"] else CLASSES)[cls]
        content, obs = [], [object() for i in range(4)]
        if isinstance(first, int):
            content = [obs[i % 4] if cls in gen.OBJS else i * 3 - 5 for i in range(first)]
            arg = {"list": lambda: list(content), "tuple": lambda: tuple(content), "gen": lambda: (v for v in content),
                   "same": lambda: CLASSES[cls](content), "iter": lambda: iter(content)}[case["src"]]()
        elif first is not None:
            try:
                arg = SIZE_KINDS[first[0]](first[1])
            except OverflowError:
                return
            if first[0] == "str":
                content = list(arg)
        args, kw = [], {}
        if first is not None:
            if case["how"] == "kw":
                kw["iterable"] = arg
            else:
                args.append(arg)
        if size is not None:
            try:
                v = SIZE_KINDS[size[0]](size[1])
            except OverflowError:
                return
            if case["how"] == "kw" or first is None:
                kw["exceptSize"] = v
            else:
                args.append(v)
        what = "%s(*%r, **%r)" % (T.__name__, args, kw)
        # sizes that have to be understood
        fine = cls in ARRAYS and (first is None or isinstance(first, int) or first[0] in ("int", "sub", "bool") and -2**63 <= first[1] <= 2**20)
        fine = fine and (size is None or size[0] in ("int", "sub", "bool", "idx") and -2**63 <= size[1] <= 2**20)
        if cls not in ARRAYS:
            fine = size is None and (first is None or isinstance(first, int))
        try:
            if init:
                x = T([1, 2, 3]) if init == 1 else T()
                r = x.__init__(*args, **kw)
                if r is not None:
                    raise Violation("%s: __init__ returned %r" % (what, r))
            else:
                x = T(*args, **kw)
        except (SystemError, AssertionError) as e:
            raise Violation("%s raised %r" % (what, e))
        except Exception as e:
            if fine:
                raise Violation("%s raised %r" % (what, e))
            ctx.label("size:" + type(e).__name__)
            if not init:
                return
            content = None                # whatever is there must be usable
        else:
            if type(x) is not T:
                raise Violation("%s is a %s" % (what, type(x).__name__))
        got = x.to_list()
        if content is None:
            content = got
        if len(got) != len(content) or any(a is not b and (cls in gen.OBJS and type(a) is object or a != b) for a, b in zip(got, content)) or len(x) != len(content):
            raise Violation("%s holds %r, expected %r" % (what, got[:50], content[:50]))
        add = obs[0] if cls in gen.OBJS else 77
        x.append(add)
        x.extend([add] * 9)
        x.insert(0, add)
        if x.to_list() != [add] + content + [add] * 10:
            raise Violation("%s is unusable afterwards" % what)
        ctx.label("size")
        ctx.nt(size is not None or isinstance(first, list))

    def derive(self, a, how):
        if how.startswith("only"):
            return self.only(a, how)
        x = a.real
        d = World.__new__(World)
        d.cls, d.obj, d.type, d.pool = a.cls, a.obj, a.type, a.pool
        d.model = list(a.model)
        if not isinstance(x, ALL_TYPES):
            return None
        own = type(x) in (CLASSES[a.cls], SUBCLASSES[a.cls])
        T = type(x)
        if how == "copy":
            d.real = x.copy()
        elif how == "to_list":
            d.real = x.to_list()
        elif how == "slice":
            d.real = x[:]
        elif how == "ctor":
            d.real = CLASSES[a.cls](x) if own else T(x)
        elif how == "ctor_sub":
            d.real = SUBCLASSES[a.cls](x) if own else T(x)
        elif how == "ctor_kw":
            d.real = T(iterable=x)
        elif how == "ctor_cap":
            d.real = T(x, len(x) // 2) if a.cls in ARRAYS and own else T(x)
        elif how == "list":
            d.real = list(x)
        elif how == "tuple":
            d.real = list(tuple(x))
        elif how == "iter":
            d.real = T(iter(x))
        elif how == "add0":
            d.real = x + []
        elif how == "mul1":
            d.real = x * 1
        elif how == "py_list_extend":
            d.real = []
            d.real.extend(x)
        else:
            raise Invalid("derive")
        if d.real is x:
            raise Violation("%s gave the container itself" % how)
        return self.derived(a, d, how)

    def only(self, a, how):
        """The source is held by one tuple only, which is also the argument tuple, or by a list."""
        d = World.__new__(World)
        d.cls, d.obj, d.type, d.pool = a.cls, a.obj, a.type, a.pool
        d.model = list(a.model)
        if not isinstance(a.real, ALL_TYPES):
            return None
        T = type(a.real)
        box = (a.real,)
        a.real = None
        try:
            if how == "only":
                d.real = T(*box)
            elif how == "only_map":
                for d.real in map(T, box):
                    pass
            elif how == "only_iter":
                d.real = []
                for v in iter(*box):
                    d.real.append(v)
            else:
                raise Invalid("derive")
        finally:
            a.real = box[0]
        return self.derived(a, d, how)

    def derived(self, a, d, how):
        got = d.real if type(d.real) is list else d.real.to_list()
        if not a.eql(got, a.model):
            raise Violation("%s of %s gave %s" % (how, a.show(a.model), a.show(got)))
        if isinstance(d.real, ALL_TYPES):
            d.type = type(d.real)
        return d

    def range(self, case, ctx):
        cls, args = case["cls"], case["args"]
        if cls not in RANGE or not 1 <= len(args) <= 3 or not all(isinstance(a, int) for a in args):
            raise Invalid("range")
        lo, hi = RANGE[cls]
        if not all(-2**63 <= a <= 2**63 - 1 for a in args):
            ctx.label("range:far")
            # not representable: has to be refused
            try:
                x = CLASSES[cls].from_range(*args)
            except SystemError as e:
                raise Violation("%s.from_range%r raised %r" % (cls, tuple(args), e))
            except Exception:
                return
            raise Violation("%s.from_range%r gave %d elements" % (cls, tuple(args), len(x)))
        if len(args) == 3 and args[2] == 0:
            try:
                CLASSES[cls].from_range(*args)
            except ValueError:
                return
            raise Violation("%s.from_range%r accepted the step 0" % (cls, tuple(args)))
        r = range(*args)
        try:
            n = len(r)
        except OverflowError:
            return
        if n > LIMIT or (n and not (lo <= min(r[0], r[-1]) and max(r[0], r[-1]) <= hi)):
            ctx.label("range:skipped")
            return
        x = CLASSES[cls].from_range(*args)
        if type(x) is not CLASSES[cls]:
            raise Violation("%s.from_range%r is a %s" % (cls, tuple(args), type(x).__name__))
        e = list(r)
        if x.to_list() != e or len(x) != n or [v for v in x] != e:
            raise Violation("%s.from_range%r holds %r, expected %r" % (cls, tuple(args), x.to_list()[:50], e[:50]))
        x.append(5)
        x.insert(0, 6)
        if x.to_list() != [6] + e + [5]:
            raise Violation("%s.from_range%r is unusable afterwards" % (cls, tuple(args)))
        ctx.label("range")
        ctx.nt(n > 1)


CHECK = C08()
