"""C12: no memory error under reentrant callbacks (runs under AddressSanitizer).

Callbacks (comparisons, finalisers, __index__, keys, iterators, repr, hash)
act on the container in the middle of an operation.  Judged: survival of the
process, AddressSanitizer, no SystemError, and afterwards a consistent
container of living objects.
"""
from hypothesis import strategies as st

from pbt import gen
from pbt.bad import bad, gen_bad
from pbt.checks import c01, c09
from pbt.cont import ARRAYS, CLASSES, OBJS, RANGE, SUBCLASSES, Boom
from pbt.engine import Invalid, Violation

EVENTS = ("eq", "lt", "del", "index", "repr", "key", "next", "hint", "len", "getitem", "hash", "bool")


class Ctl:
    """Which callback acts, and how: plan is a list of [event, n-th call, action]."""

    def __init__(self, plan):
        self.plan = {}
        for ev, n, act in plan:
            self.plan.setdefault(ev, {})[n] = act
        self.counts = {}
        self.fired = 0
        self.busy = False
        self.x = None
        self.other = None              # the other operand
        self.its = []
        self.make = None
        self.on = False

    def tick(self, ev):
        if not self.on:
            return
        n = self.counts.get(ev, 0)
        self.counts[ev] = n + 1
        plan = self.plan.get(ev)
        if not plan or self.busy:
            return
        act = plan.get(n)
        if act is None:
            return
        self.busy = True
        try:
            self.fired += 1
            self.act(act)
        finally:
            self.busy = False

    def act(self, act):
        x = self.x
        name = act[0]
        if name == "other":
            act = act[1]
            name = act[0]
            x = self.other
        if x is None:
            return
        try:
            if name == "clear":
                x.clear()
            elif name == "pop":
                for _ in range(act[1]):
                    x.pop()
            elif name == "pop0":
                for _ in range(act[1]):
                    x.pop(0)
            elif name == "grow":
                x.extend([self.make(i) for i in range(act[1])])
            elif name == "insert0":
                for i in range(act[1]):
                    x.insert(0, self.make(i))
            elif name == "set":
                for i in range(len(x)):
                    x[i] = self.make(i)
            elif name == "delslice":
                del x[act[1]:]
            elif name == "replace":
                x[:] = [self.make(i) for i in range(act[1])]
            elif name == "reverse":
                x.reverse()
            elif name == "imul":
                x *= act[1]
            elif name == "sort":
                x.sort(key=id)
            elif name == "resize":
                if hasattr(x, "resize"):
                    x.resize(act[1])
            elif name == "reinit":
                x.__init__([self.make(i) for i in range(act[1])])
            elif name == "drop":
                if x is self.x:
                    self.x = None
            elif name == "advance":
                for it in self.its:
                    next(it, None)
            elif name == "extendself":
                if len(x) < 500:
                    x.extend(x)
            elif name == "raise":
                raise Boom("callback")
            elif name == "shrink":
                n = len(x)
                x.clear()
                x.extend([self.make(i) for i in range(min(n, act[1]))])
        except (IndexError, ValueError, TypeError, OverflowError, RuntimeError):
            pass

    @staticmethod
    def action():
        k = st.integers(0, 40)
        one = st.one_of(gen.cmd("clear"), gen.cmd("clear"), gen.cmd("pop", st.integers(1, 5)), gen.cmd("pop0", st.integers(1, 5)), gen.cmd("grow", k),
                         gen.cmd("insert0", st.integers(1, 20)), gen.cmd("set"), gen.cmd("delslice", st.integers(0, 6)), gen.cmd("replace", k),
                         gen.cmd("reverse"), gen.cmd("imul", st.integers(0, 3)), gen.cmd("sort"), gen.cmd("resize", k), gen.cmd("reinit", k),
                         gen.cmd("drop"), gen.cmd("advance"), gen.cmd("extendself"), gen.cmd("raise"), gen.cmd("shrink", st.integers(0, 4)))
        return st.one_of(one, one, one.map(lambda a: ["other", a]))


class Hook:
    """An object whose every special method reports to the controller."""
    __slots__ = ("key", "ctl", "__weakref__")

    def __init__(self, key, ctl):
        self.key = key
        self.ctl = ctl

    def __eq__(self, other):
        self.ctl.tick("eq")
        return isinstance(other, Hook) and self.key == other.key

    def __lt__(self, other):
        self.ctl.tick("lt")
        return self.key < other.key if isinstance(other, Hook) else NotImplemented

    __gt__ = __le__ = __ge__ = __lt__

    def __hash__(self):
        self.ctl.tick("hash")
        return hash(self.key)

    def __repr__(self):
        self.ctl.tick("repr")
        return "H%d" % self.key

    def __del__(self):
        self.ctl.tick("del")

    def __index__(self):
        self.ctl.tick("index")
        return self.key


class HookKey:
    """A sort key with its own comparison."""

    def __init__(self, key, ctl):
        self.key, self.ctl = key, ctl

    def __lt__(self, other):
        self.ctl.tick("lt")
        return self.key < other.key


class HookIter:
    def __init__(self, items, ctl):
        self.it = iter(items)
        self.ctl = ctl

    def __iter__(self):
        return self

    def __next__(self):
        self.ctl.tick("next")
        return next(self.it)

    def __length_hint__(self):
        self.ctl.tick("hint")
        return 5


class HookSeq:
    def __init__(self, items, ctl):
        self.items = items
        self.ctl = ctl

    def __len__(self):
        self.ctl.tick("len")
        return len(self.items)

    def __getitem__(self, i):
        self.ctl.tick("getitem")
        return self.items[i]


OPS = ("append", "insert", "extend", "iadd", "setitem", "getitem", "delitem", "pop", "remove", "index", "count", "in", "sort", "reverse",
       "copy", "to_list", "eq", "ne", "lt", "le", "gt", "ge", "add", "mul", "imul", "repr", "str", "getslice", "setslice", "delslice",
       "iterate", "reversed", "clear", "ctor", "resize", "reinit", "next", "hash", "drop", "buffer", "bool")
SRC = ("list", "tuple", "iter", "seq", "same", "OAL", "OLL", "hookiter", "selfiter", "gen", "self", "sub", "shared")


@gen.cached
def hook_ops(max_ops):
    i = st.integers(-7, 12)
    v = st.integers(0, 9)
    src = st.tuples(st.sampled_from(SRC), st.lists(v, max_size=8)).map(list)
    sl = st.tuples(st.one_of(st.none(), i), st.one_of(st.none(), i), st.sampled_from([None, None, None, 1, 2, -1, -2])).map(list)
    op = st.tuples(st.sampled_from(OPS), i, v, src, sl, st.integers(0, 7)).map(list)
    return st.lists(op, min_size=1, max_size=max_ops)


@gen.cached
def plans():
    return st.lists(st.tuples(st.sampled_from(EVENTS + ("eq", "lt", "del", "del", "index", "index", "key", "next")), st.integers(0, 12), Ctl.action()).map(list),
                    min_size=1, max_size=4)


@st.composite
def hook_cases(draw, max_ops):
    return {"of": "hook", "cls": draw(gen.sampled(gen.ALL)), "n": draw(st.one_of(st.integers(0, 9), st.integers(0, 9), st.sampled_from([12, 16, 17, 33, 64, 65, 70, 130]))),
            "plan": draw(plans()), "ops": draw(hook_ops(max_ops)), "sub": draw(st.integers(0, 4)) == 0, "its": draw(st.integers(0, 3))}


@st.composite
def bad_cases(draw):
    case, n, vals = draw(gen.worlds(max_n=100, large=5000))
    case["ops"] = draw(st.lists(gen_bad(case["cls"], n, vals), min_size=1, max_size=8))
    return {"of": "bad", "case": case}


class C12:
    id = "C12"
    per_round = 300

    def strategy(self, tier):
        k = 16 if tier == "thorough" else 8
        return st.one_of(hook_cases(k), hook_cases(k), hook_cases(k), hook_cases(3), hook_cases(3),
                         c01.cases(20).map(lambda c: {"of": "c01", "case": c}), c09.cases(16).map(lambda c: {"of": "c09", "case": c}),
                         bad_cases())

    def enumerated(self, tier):
        # every operation, with every action at the first callbacks of every kind
        acts = [["clear"], ["grow", 30], ["drop"], ["replace", 3], ["pop", 2], ["insert0", 3], ["shrink", 1], ["reinit", 2], ["raise"], ["advance"]]
        for cls in gen.ALL:
            for name in OPS:
                for ev in EVENTS:
                    for act in acts:
                        for src in (("list", "hookiter", "same", "seq") if name in ("extend", "iadd", "setslice", "ctor", "reinit", "add") else ("list",)):
                            yield {"of": "hook", "cls": cls, "n": 5, "plan": [[ev, 0, act], [ev, 3, act]], "its": 2,
                                   "ops": [[name, 1, 2, [src, [1, 2, 3]], [0, 3, None], 1]]}
                        if name in ("eq", "ne", "lt", "le", "gt", "ge", "add", "extend", "iadd", "setslice", "ctor"):
                            for src in ("same", "OAL", "OLL", "list"):
                                yield {"of": "hook", "cls": cls, "n": 5, "plan": [[ev, 1, ["other", act]]], "its": 1,
                                       "ops": [[name, 1, 2, [src, [1, 2, 3]], [0, 3, None], 3]]}
                        yield {"of": "hook", "cls": cls, "n": 5, "plan": [[ev, 1, act]], "its": 3,
                               "ops": [[name, 1, 3, ["list", [1, 2, 3]], [0, 3, 2], 2], ["repr", 0, 0, ["list", []], [None, None, None], 0]]}

    def run(self, case, ctx):
        of = case["of"]
        if of == "c01":
            ctx.label("plain history")
            return c01.CHECK.run(case["case"], ctx)
        if of == "c09":
            ctx.label("iterator history")
            return c09.CHECK.run(case["case"], ctx)
        if of == "bad":
            from pbt.cont import World
            w = World(case["case"])
            for op in case["case"]["ops"]:
                bad(w, op)
            w.check_state("at the end")
            ctx.label("failing operations")
            ctx.nt()
            return
        if of != "hook":
            raise Invalid("of")
        cls = case["cls"]
        if cls not in CLASSES or not 0 <= case["n"] <= 300:
            raise Invalid("case")
        ctl = Ctl(case["plan"])
        T = (SUBCLASSES if case.get("sub") else CLASSES)[cls]
        obj = cls in OBJS
        made = [100]

        def make(i):
            made[0] += 1
            return Hook(i, ctl) if obj else made[0]
        ctl.make = make
        x = T([make(i) for i in range(case["n"])])
        ctl.x = x
        its = [iter(x) if k % 2 == 0 else reversed(x) for k in range(case["its"])]
        ctl.its = its
        for it in its:
            next(it, None)
        shared = [Hook(i, ctl) for i in range(6)]
        ctl.on = True
        for k, op in enumerate(case["ops"]):
            if ctl.x is None:
                break
            x = ctl.x
            if len(x) > 3000:
                x.clear()
            try:
                res = self.op(op, x, ctl, T, cls, obj, shared)
                del res
            except SystemError as e:
                raise Violation("%s %s raised %r" % (T.__name__, op, e))
            except (Boom, Exception):
                pass
            x = None
            ctx.label("op:" + op[0])
        ctl.on = False
        x = ctl.x
        if x is not None:
            self.consistent(T, cls, obj, x)
            for it in its:
                for _ in range(5000):
                    try:
                        v = next(it)
                    except StopIteration:
                        break
                    self.check_elem(T, cls, obj, v)
                else:
                    raise Violation("%s: an iterator does not end" % T.__name__)
            self.consistent(T, cls, obj, x)
            x.append(make(1))
            x.pop()
            x.clear()
            if len(x) or x.to_list():
                raise Violation("%s: clear left %r" % (T.__name__, x.to_list()))
        else:
            for it in its:
                for v in it:
                    self.check_elem(T, cls, obj, v)
        if ctl.fired:
            ctx.label("fired")
        ctx.nt(ctl.fired > 0)

    def check_elem(self, T, cls, obj, v):
        if obj:
            if v is not None and type(v) is not Hook and type(v) is not int:
                raise Violation("%s holds %r" % (T.__name__, v))
        elif type(v) is not int or not RANGE[cls][0] <= v <= RANGE[cls][1]:
            raise Violation("%s holds %r" % (T.__name__, v))

    def consistent(self, T, cls, obj, x):
        got = x.to_list()
        if len(got) != len(x):
            raise Violation("%s: len %d, to_list %d" % (T.__name__, len(x), len(got)))
        for v in got:
            self.check_elem(T, cls, obj, v)
        again = [v for v in x]
        back = [v for v in reversed(x)][::-1]
        if len(again) != len(got) or any(a is not b and a != b for a, b in zip(again, got)) or \
                len(back) != len(got) or any(a is not b and a != b for a, b in zip(back, got)):
            raise Violation("%s: iteration and to_list disagree" % T.__name__)

    def source(self, spec, x, ctl, T, cls, obj, shared):
        ctl.other = s = self.source_(spec, x, ctl, T, cls, obj, shared)
        return s

    def source_(self, spec, x, ctl, T, cls, obj, shared):
        kind, vals = spec
        items = [Hook(v, ctl) for v in vals]
        if kind == "list":
            return items
        if kind == "tuple":
            return tuple(items)
        if kind == "iter":
            return iter(items)
        if kind == "gen":
            return (v for v in items)
        if kind == "seq":
            return HookSeq(items, ctl)
        if kind == "same":
            return T(items) if obj else T(vals)
        if kind == "sub":
            return SUBCLASSES[cls](items if obj else vals)
        if kind in ("OAL", "OLL"):
            return CLASSES[kind](items)
        if kind == "hookiter":
            return HookIter(items, ctl)
        if kind == "selfiter":
            # (bounded: a list would grow forever)
            import itertools
            return itertools.islice(iter(x), 20)
        if kind == "self":
            return x
        if kind == "shared":
            return shared
        raise Invalid("source")

    def op(self, op, x, ctl, T, cls, obj, shared):
        name, i, v, src, sl, k = op
        item = Hook(v, ctl)            # for int containers: an object with __index__
        idx = Hook(i, ctl)
        c = slice(*(None if e is None else Hook(e, ctl) for e in sl[:2]), sl[2])
        if name == "append":
            return x.append(item)
        if name == "insert":
            return x.insert(i, item)
        if name == "extend":
            if src[0] == "self" and len(x) > 500:
                return None
            return x.extend(self.source(src, x, ctl, T, cls, obj, shared))
        if name == "iadd":
            if src[0] == "self" and len(x) > 500:
                return None
            s = self.source(src, x, ctl, T, cls, obj, shared)
            x += s
            return None
        if name == "setitem":
            x[idx if k % 2 else i] = item
        elif name == "getitem":
            return x[idx if k % 2 else i]
        elif name == "delitem":
            del x[idx if k % 2 else i]
        elif name == "pop":
            return x.pop(idx if k % 2 else i) if k else x.pop()
        elif name == "remove":
            return x.remove(item if k % 2 or not obj else x[-1])
        elif name == "index":
            return x.index(item, *[(idx, Hook(99, ctl))[:k % 3], (i, 99)[:k % 3]][k % 2])
        elif name == "count":
            return x.count(item)
        elif name == "in":
            return item in x
        elif name == "sort":
            if k == 0:
                return x.sort()

            def key(e):
                ctl.tick("key")
                return e if k == 1 else HookKey(e.key if obj and e is not None else 3, ctl) if k < 4 else id(e) % 7
            return x.sort(key=key, reverse=bool(k % 2))
        elif name == "reverse":
            return x.reverse()
        elif name == "copy":
            return x.copy()
        elif name == "to_list":
            return x.to_list()
        elif name in ("eq", "ne", "lt", "le", "gt", "ge"):
            import operator
            kind = src[0] if src[0] not in ("iter", "gen", "hookiter", "selfiter") else "list"
            # often equal for long, so that there are many callbacks
            vals = src[1] if k % 3 == 1 else [e if type(e) is int else e.key if e is not None else 0 for e in x.to_list()]
            if k % 3 == 2 and vals:
                vals[-1] = 77
            o = self.source([kind, vals], x, ctl, T, cls, obj, shared)
            return getattr(operator, name)(x, o) if k < 5 else getattr(operator, name)(o, x)
        elif name == "add":
            return x + self.source(src, x, ctl, T, cls, obj, shared)
        elif name == "mul":
            return x * (idx if k % 2 else k)
        elif name == "imul":
            if len(x) < 300:
                x *= (Hook(k, ctl) if k % 2 else k)
        elif name == "repr":
            return repr(x)
        elif name == "str":
            return str(x)
        elif name == "getslice":
            return x[c]
        elif name == "setslice":
            x[c] = self.source(src, x, ctl, T, cls, obj, shared)
        elif name == "delslice":
            del x[c]
        elif name == "iterate":
            n = 0
            for e in x:
                ctl.tick("next")
                n += 1
                if n > 400:
                    break
        elif name == "reversed":
            n = 0
            for e in reversed(x):
                ctl.tick("next")
                n += 1
                if n > 400:
                    break
        elif name == "clear":
            return x.clear()
        elif name == "ctor":
            return T(self.source(src, x, ctl, T, cls, obj, shared))
        elif name == "resize":
            return x.resize(k) if cls in ARRAYS else None
        elif name == "reinit":
            return x.__init__(self.source(src, x, ctl, T, cls, obj, shared))
        elif name == "next":
            for it in ctl.its:
                for _ in range(k):
                    next(it, None)
        elif name == "hash":
            return hash(x)
        elif name == "bool":
            return bool(x)
        elif name == "drop":
            ctl.x = None
        elif name == "buffer":
            if cls in ("IAL", "BIAL"):
                return bytes(memoryview(x))
        else:
            raise Invalid("op")


CHECK = C12()
