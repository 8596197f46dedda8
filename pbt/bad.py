"""Operations that have to fail: bad(w, op) runs one and checks that it raised
an ordinary exception and left the container as it was.

op: ["bad", name, ...]; see the table in gen_bad().
"""
import operator

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import ARRAYS, CLASSES, INTS, SUBCLASSES, Boom, ListSub, mark
from pbt.engine import Invalid, Violation

ARITY = {"append": (1, 1), "extend": (1, 1), "insert": (2, 2), "pop": (0, 1), "remove": (1, 1), "clear": (0, 0),
         "reverse": (0, 0), "copy": (0, 0), "to_list": (0, 0), "index": (1, 3), "count": (1, 1), "resize": (1, 1)}


class BadIndex:
    def __index__(self):
        raise Boom("index")


class NoInt:
    def __index__(self):
        return "no int"


EXCS = {e.__name__: e for e in (ValueError, TypeError, IndexError, KeyError, StopIteration, AttributeError, OverflowError, MemoryError, RuntimeError,
                                RecursionError, NotImplementedError, AssertionError, ZeroDivisionError, OSError, KeyboardInterrupt, SystemExit,
                                GeneratorExit, BaseException, UnicodeError, BufferError, SystemError)}
EXCS["Boom"] = Boom


class IdxRaises:
    def __init__(self, e):
        self.e = e

    def __index__(self):
        raise self.e


class CmpRaises:
    def __init__(self, e):
        self.e = e

    def __eq__(self, other):
        raise self.e
    __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __eq__
    __hash__ = None

    def __repr__(self):
        raise self.e


class BoolRaises:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        raise self.e


class TruthRaises(CmpRaises):
    """A comparison gives something without a truth value."""

    def __eq__(self, other):
        return BoolRaises(self.e)
    __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __eq__
    __hash__ = None


def caller_raises(w, where, e, k, items):
    """An operation in which code of the caller raises e, or None."""
    r, n, T = w.real, len(w.model), w.type
    i = IdxRaises(e)
    obj = w.obj
    q = (CmpRaises if k % 2 else TruthRaises)(e)

    def later(f):
        left = [k % n if n else 0]

        def g(v):
            left[0] -= 1
            if left[0] < 0:
                raise e
            return f(v)
        return g

    def stop_early():
        yield from items[:k % (len(items) + 1)]
        raise e
    fs = {"get": lambda: r[i], "set": lambda: do_set(r, i, 1), "del": lambda: do_del(r, i), "insert": lambda: r.insert(i, 1),
          "slice": lambda: r[i:], "slicestop": lambda: r[:i], "slicestep": lambda: r[::i], "setslice": lambda: do_set(r, slice(i, None), []),
          "delslice": lambda: do_del(r, slice(None, i)), "mul": lambda: r * i, "rmul": lambda: i * r, "imul": lambda: do_imul(r, i),
          "index2": lambda: r.index(1, i), "index3": lambda: r.index(1, 0, i), "rev": lambda: r.sort(reverse=BoolRaises(e))}
    if n:
        fs["key"] = lambda: r.sort(key=later(lambda v: 1))
    if n > 1:
        fs["keycmp"] = lambda: r.sort(key=lambda v: q)
        fs["keyrev"] = lambda: r.sort(key=later(lambda v: 2), reverse=True)
    if not obj:
        fs.update({"append": lambda: r.append(i), "insertv": lambda: r.insert(0, i), "index": lambda: r.index(i), "remove": lambda: r.remove(i),
                   "count": lambda: r.count(i)})
        if n:
            fs["setv"] = lambda: do_set(r, 0, i)
        fs["setslicev"] = lambda: do_set(r, slice(0, 1), [1, i])
    if n and (not obj or all(type(v) in (int, str, float) for v in w.model)):
        for name, o in (("eq", operator.eq), ("ne", operator.ne), ("lt", operator.lt), ("le", operator.le), ("gt", operator.gt), ("ge", operator.ge)):
            fs[name] = lambda o=o: o(r, w.model[:k % n] + [q] + w.model[k % n + 1:])
            fs["r" + name] = lambda o=o: o(w.model[:k % n] + [q] + w.model[k % n + 1:], r)
        if obj:
            fs.update({"indexq": lambda: r.index(q), "removeq": lambda: r.remove(q), "countq": lambda: r.count(q), "inq": lambda: q in r})
    if obj:
        fs["repr"] = lambda: repr(T(w.model[:3] + [CmpRaises(e)]))
        fs["sort"] = lambda: T([q, q, q]).sort()
    gen_ok = not isinstance(e, StopIteration)           # ends an iterator, and a generator turns it into a RuntimeError
    if gen_ok:
        fs["ctor"] = lambda: T(stop_early())
    return fs.get(where)


CALLER = ("get", "set", "del", "insert", "slice", "slicestop", "slicestep", "setslice", "delslice", "mul", "rmul", "imul", "index2", "index3", "rev", "key",
          "keycmp", "keyrev", "append", "insertv", "index", "remove", "count", "setv", "setslicev", "eq", "ne", "lt", "le", "gt", "ge", "req", "rne", "rlt",
          "rle", "rgt", "rge", "indexq", "removeq", "countq", "inq", "repr", "sort", "ctor")
ANY_ORDER = ("rev", "key", "keycmp", "keyrev")


class FailAt:
    """An iterator that raises after k items."""

    def __init__(self, items, k, exc=None):
        self.items = items[:k]
        self.i = 0
        self.exc = exc or Boom("iterator")

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.items):
            raise self.exc
        self.i += 1
        return self.items[self.i - 1]


class FailSeq:
    def __init__(self, items, k, exc=None):
        self.items = items
        self.k = k
        self.exc = exc or Boom("getitem")

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if i >= self.k:
            raise self.exc
        return self.items[i]


class FailIter:
    def __iter__(self):
        raise Boom("iter")


class NoIter:
    def __iter__(self):
        return 5


class FailHint:
    def __init__(self, items, kind):
        self.it = iter(items)
        self.kind = kind

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __length_hint__(self):
        if self.kind == 0:
            raise Boom("hint")
        if self.kind == 1:
            return -1
        if self.kind == 2:
            return "x"
        return 2**100


NOINTS = {"str": lambda: "1", "none": lambda: None, "float": lambda: 1.0, "list": lambda: [1], "obj": object, "huge": lambda: 2**63,
          "huge2": lambda: 2**64, "hugeneg": lambda: -2**63 - 1, "complex": lambda: 1j, "badindex": BadIndex, "noint": NoInt,
          "bytes": lambda: b"1", "huge3": lambda: 10**50, "hugeneg2": lambda: -2**64}
NOINDEX = {"str": lambda: "1", "none": lambda: None, "float": lambda: 1.0, "list": lambda: [1], "obj": object, "complex": lambda: 1j,
           "badindex": BadIndex, "noint": NoInt, "tuple": lambda: (1, 2)}
NOITER = {"int": lambda: 5, "none": lambda: None, "float": lambda: 1.5, "obj": object, "failiter": FailIter, "noiter": NoIter,
          "type": lambda: list, "func": lambda: len, "badindex": BadIndex}
BADFAIL = ("failat", "failseq", "failgen", "hint0", "hint1", "hint2", "hint3")


def failing(w, kind, items, k, exc=None):
    if kind == "failat":
        return FailAt(items, k, exc)
    if kind == "failseq":
        return FailSeq(items, k, exc)
    if kind == "failgen":
        def g():
            for i, v in enumerate(items):
                if i >= k:
                    break
                yield v
            raise exc or Boom("generator")
        return g()
    if kind in ("hint0", "hint1", "hint2", "hint3"):
        return FailHint(list(items), int(kind[4]))
    raise Invalid("failing")


def mixed(w, kind, items, k, bad):
    """Good items with a bad one at k."""
    xs = list(items)
    xs.insert(k, bad)
    if kind == "list":
        return xs
    if kind == "tuple":
        return tuple(xs)
    if kind == "gen":
        return (v for v in xs)
    if kind == "listsub":
        return ListSub(xs)
    if kind == "OAL":
        return CLASSES["OAL"](xs)
    if kind == "OLL":
        return CLASSES["OLL"](xs)
    raise Invalid("mixed")


@gen.cached
def gen_bad(cls, n, vals):
    nonint = st.sampled_from(sorted(NOINTS))
    noidx = st.sampled_from(sorted(NOINDEX))
    noit = st.sampled_from(sorted(NOITER))
    items = st.lists(vals, max_size=8)
    k = st.integers(0, 8)
    c = gen.cmd
    b = st.just("bad")

    def t(*xs):
        return st.tuples(b, *xs).map(list)
    s = st.just
    outs = [
        t(s("index_type"), st.sampled_from(["get", "set", "del", "insert", "pop", "index2", "index3", "slice", "setslice", "delslice"]), noidx, vals),
        t(s("range"), st.sampled_from(["get", "set", "del", "pop"]), st.sampled_from([0, 1, 2, 2**31, 2**32, 2**63 - 1, 2**63, 2**70, -1, -2, -2**31, -2**32, -2**63, -2**70]), vals),
        t(s("noiter"), st.sampled_from(["extend", "iadd", "setslice", "add", "ctor"]), noit),
        t(s("failing"), st.sampled_from(["extend", "iadd", "setslice", "ctor", "init"]), st.sampled_from(BADFAIL), items, k,
          st.sampled_from(sorted(EXCS))),
        t(s("caller"), st.sampled_from(CALLER), st.sampled_from(sorted(EXCS)), k, items),
        t(s("arity"), st.sampled_from(sorted(ARITY)), st.integers(0, 5), vals),
        t(s("kw"), st.sampled_from(sorted(ARITY) + ["sort"])),
        t(s("missing"), st.sampled_from(["remove", "index"])),
        t(s("sortkey"), st.sampled_from(["raise", "nocall", "incomparable", "badrev"])),
        t(s("operand"), st.sampled_from(["*", "*=", "r*", "+"]), st.sampled_from(["none", "float", "str", "obj", "dict", "set"])),
        t(s("stepzero"), st.sampled_from(["get", "set", "del"])),
        t(s("hugerep"), st.sampled_from(["*", "*=", "r*"]), st.sampled_from([2**63 - 1, 2**62, 2**64, 2**70])),
        t(s("attr")),
        t(s("hash")),
    ]
    if cls in INTS:
        outs += [t(s("value"), st.sampled_from(["append", "insert", "setitem", "index", "remove", "count"]), nonint, gen.indices(n))] * 3
        outs += [t(s("mixed"), st.sampled_from(["extend", "iadd", "setslice", "ctor"]), nonint, st.sampled_from(["list", "tuple", "gen", "listsub", "OAL", "OLL"]),
                   items, k, gen.plain_slices(n))] * 3
    if cls in ARRAYS:
        outs += [t(s("resize"), st.sampled_from(["neg", "neg2", "huge", "huge2", "huge3", "str", "none", "float", "hugeneg"]))]
    return st.one_of(outs)


def do_set(x, i, v):
    x[i] = v


def do_del(x, i):
    del x[i]


def do_iadd(x, v):
    x += v
    return x


def do_imul(x, v):
    x *= v
    return x


def bad(w, op, ctx=None, quiet=False):
    """Returns the exception, or None if the case turned out not to fail."""
    name = op[1]
    r, m = w.real, w.model
    n = len(m)
    before = list(m)
    T = w.type
    prefix = None                 # elements that may have been added
    must = True
    same = None                   # the exception that has to come out
    what = "%s of %s: %s" % (T.__name__, w.show(m), op[1:])
    if name == "index_type":
        where, i, v = op[2], NOINDEX[op[3]](), w.val(op[4])
        if i is None and where in ("slice", "setslice", "delslice"):
            return None
        f = {"get": lambda: r[i], "set": lambda: do_set(r, i, v), "del": lambda: do_del(r, i),
             "insert": lambda: r.insert(i, v), "pop": lambda: r.pop(i), "index2": lambda: r.index(v, i),
             "index3": lambda: r.index(v, 0, i), "slice": lambda: r[i:], "setslice": lambda: do_set(r, slice(0, i), [v]),
             "delslice": lambda: do_del(r, slice(i, None))}[where]
    elif name == "range":
        where, d, v = op[2], op[3], w.val(op[4])
        i = n + d if d >= 0 else -n + d
        f = {"get": lambda: r[i], "set": lambda: do_set(r, i, v), "del": lambda: do_del(r, i), "pop": lambda: r.pop(i)}[where]
    elif name == "noiter":
        where, x = op[2], NOITER[op[3]]()
        if where == "ctor":
            if isinstance(x, int):
                return None
            f = lambda: T(x)
        else:
            f = {"extend": lambda: r.extend(x), "iadd": lambda: do_iadd(r, x), "setslice": lambda: do_set(r, slice(0, 1), x),
                 "add": lambda: r + x}[where]
    elif name == "failing":
        where, kind, items, k = op[2], op[3], w.values(op[4]), op[5]
        E = op[6] if len(op) > 6 else "Boom"
        if E not in EXCS:
            raise Invalid("exception")
        if issubclass(EXCS[E], StopIteration) or kind == "failseq" and issubclass(EXCS[E], IndexError):
            E = "Boom"                   # these end an iteration
        e = mine = EXCS[E]("caller's")
        same = e if kind == "failseq" or where != "setslice" and kind in ("failat", "failgen") else None
        x = failing(w, kind, items, k, e)
        must = kind in ("failat", "failgen") or kind == "failseq" and k < len(items)
        prefix = items
        if where == "ctor":
            f = lambda: T(x)
        elif where == "init":
            y = T(before)

            def f():
                return y.__init__(x)
            must = False
        else:
            f = {"extend": lambda: r.extend(x), "iadd": lambda: do_iadd(r, x), "setslice": lambda: do_set(r, slice(0, 1), x)}[where]
            if where == "setslice":
                prefix = None
        if where in ("ctor", "init"):
            prefix = None
        if not must and where in ("extend", "iadd", "setslice"):
            # a strange length hint may be ignored: then all items arrive
            try:
                f()
            except BaseException as e:
                if e is not mine and (isinstance(e, SystemError) or not isinstance(e, Exception)):
                    raise Violation("%s raised %r" % (what, e))
                exc = e.with_traceback(None)
            else:
                if where == "setslice":
                    w.model[0:1] = items
                else:
                    w.model += items
                w.check_state("after " + what)
                return None
            finish(w, what, before, prefix, exc)
            return exc
    elif name == "arity":
        meth, k, v = op[2], op[3], w.val(op[4])
        lo, hi = ARITY[meth]
        if lo <= k <= hi or not hasattr(r, meth):
            return None
        if meth == "sort":
            return None
        args = [v] * k
        f = lambda: getattr(r, meth)(*args)
    elif name == "kw":
        meth = op[2]
        if not hasattr(r, meth):
            return None
        args = {"append": (1,), "extend": ([],), "insert": (0, 1), "remove": (1,), "index": (1,), "count": (1,), "resize": (1,)}.get(meth, ())
        f = lambda: getattr(r, meth)(*args, nonsense=1)
    elif name == "missing":
        x = 987654321 if w.cls in INTS else object()
        if not w.obj and x in m:
            return None
        if w.obj and any(type(e).__name__ in ("Always", "Raiser", "BadBool") for e in m):
            return None
        f = (lambda: r.remove(x)) if op[2] == "remove" else (lambda: r.index(x))
    elif name == "sortkey":
        kind = op[2]
        if n < 2:
            return None
        if kind == "raise":
            f = lambda: r.sort(key=lambda x: 1 // 0)
        elif kind == "nocall":
            f = lambda: r.sort(key=5)
        elif kind == "incomparable":
            f = lambda: r.sort(key=lambda x: 1j)
        else:
            f = lambda: r.sort(reverse="no")
            must = False
        try:
            f()
        except SystemError as e:
            raise Violation("%s raised %r" % (what, e))
        except Exception as e:
            exc = e.with_traceback(None)
            got = r.to_list()
            if w.obj and sorted(map(mark, got)) != sorted(map(mark, before)) or not w.obj and sorted(got) != sorted(before):
                raise Violation("%s raised %r and left %s" % (what, exc, w.show(got)))
            w.model[:] = got
            w.check_state("after " + what)
            return exc
        if must:
            raise Violation("%s did not raise" % what)
        w.model[:] = r.to_list()
        return None
    elif name == "operand":
        x = {"none": None, "float": 1.5, "str": "ab", "obj": object(), "dict": {}, "set": set()}[op[3]]
        f = {"*": lambda: r * x, "*=": lambda: do_imul(r, x), "r*": lambda: x * r, "+": lambda: r + x}[op[2]]
    elif name == "stepzero":
        s = slice(0, 1, 0)
        f = {"get": lambda: r[s], "set": lambda: do_set(r, s, []), "del": lambda: do_del(r, s)}[op[2]]
    elif name == "hugerep":
        k = op[3]
        if not n:
            return None
        f = {"*": lambda: r * k, "*=": lambda: do_imul(r, k), "r*": lambda: k * r}[op[2]]
    elif name == "attr":
        f = lambda: r.no_such_attribute
    elif name == "hash":
        f = lambda: hash(r)
    elif name == "value":
        where, x, i = op[2], NOINTS[op[3]](), op[4]
        if where == "setitem":
            if not n:
                return None
            i = i % n
        if abs(i) > 2**62:
            return None
        f = {"append": lambda: r.append(x), "insert": lambda: r.insert(i, x), "setitem": lambda: do_set(r, i, x),
             "index": lambda: r.index(x), "remove": lambda: r.remove(x), "count": lambda: r.count(x)}[where]
        must = where in ("append", "insert", "setitem", "index", "remove")
        if where == "count":
            try:
                c = r.count(x)
            except SystemError as e:
                raise Violation("%s raised %r" % (what, e))
            except Exception as e:
                exc = e.with_traceback(None)
                finish(w, what, before, None, exc)
                return exc
            if c != (before.count(x) if op[3] == "float" else 0) and c != 0:
                raise Violation("%s gave %r" % (what, c))
            return None
        if op[3] == "float" and where in ("index", "remove") and 1 in m:
            return None
    elif name == "mixed":
        where, x, kind, items, k, c = op[2], NOINTS[op[3]](), op[4], w.values(op[5]), op[6], op[7]
        k = min(k, len(items))
        src = mixed(w, kind, items, k, x)
        if where == "ctor":
            f = lambda: T(src)
        else:
            f = {"extend": lambda: r.extend(src), "iadd": lambda: do_iadd(r, src), "setslice": lambda: do_set(r, slice(*c), src)}[where]
            if where != "setslice":
                prefix = items[:k]
    elif name == "resize":
        if w.cls not in ARRAYS:
            return None
        x = {"neg": -1, "neg2": -2**63, "huge": 2**62, "huge2": 2**63 - 1, "huge3": 2**64, "str": "1", "none": None, "float": 2.0, "hugeneg": -2**64}[op[2]]
        f = lambda: r.resize(x)
    elif name == "caller":
        where, k = op[2], op[4]
        if where not in CALLER or op[3] not in EXCS:
            raise Invalid("caller")
        same = EXCS[op[3]]("caller's")
        f = caller_raises(w, where, same, k, w.values(op[5]))
        if f is None:
            return None
    else:
        raise Invalid("bad")
    try:
        res = f()
    except BaseException as e:
        if e is not same and (same is not None or isinstance(e, SystemError) or not isinstance(e, Exception)):
            raise Violation("%s raised %r%s" % (what, e, "" if same is None else ", not the caller's %r" % same))
        exc = e.with_traceback(None)
        if name == "caller" and op[2] in ANY_ORDER:
            got = r.to_list()
            if w.obj and sorted(map(mark, got)) != sorted(map(mark, before)) or not w.obj and sorted(got) != sorted(before):
                raise Violation("%s raised %r and left %s" % (what, exc, w.show(got)))
            before = got
    else:
        if must:
            raise Violation("%s did not raise but gave %s" % (what, w.show(res)))
        return None
    finish(w, what, before, prefix, exc)
    if ctx is not None:
        ctx.label("bad:%s:%s" % (name, type(exc).__name__))
    return exc


def finish(w, what, before, prefix, exc):
    if prefix is not None:
        got = w.real.to_list()
        k = len(got) - len(before)
        if k < 0 or k > len(prefix) or not w.eql(got, before + prefix[:k]):
            raise Violation("%s raised %r and left %s" % (what, exc, w.show(got)))
        w.model[:] = before + prefix[:k]
    else:
        w.model[:] = before
    w.check_state("after %s, which raised %s" % (what, type(exc).__name__), full=len(before) < 200)
