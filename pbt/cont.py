"""The five containers, their list model, and the language of cases.

A value in a case is an int: for the int containers the element itself, for
the object containers an index into the pool of the case.  The same Python
object goes into the container and into the model, so results are compared by
identity there.
"""
import operator

from pyfastutil.ints import BigIntArrayList, IntArrayList, IntLinkedList
from pyfastutil.objects import ObjectArrayList, ObjectLinkedList

from pbt.engine import Invalid, Violation

CLASSES = {"IAL": IntArrayList, "BIAL": BigIntArrayList, "ILL": IntLinkedList,
           "OAL": ObjectArrayList, "OLL": ObjectLinkedList}
INTS = ("IAL", "BIAL", "ILL")
OBJS = ("OAL", "OLL")
ARRAYS = ("IAL", "BIAL", "OAL")
LINKED = ("ILL", "OLL")
RANGE = {"IAL": (-2**31, 2**31 - 1), "ILL": (-2**31, 2**31 - 1), "BIAL": (-2**63, 2**63 - 1)}


class SubIAL(IntArrayList):
    pass


class SubBIAL(BigIntArrayList):
    pass


class SubILL(IntLinkedList):
    pass


class SubOAL(ObjectArrayList):
    pass


class SubOLL(ObjectLinkedList):
    pass


SUBCLASSES = {"IAL": SubIAL, "BIAL": SubBIAL, "ILL": SubILL, "OAL": SubOAL, "OLL": SubOLL}
ALL_TYPES = tuple(CLASSES.values())


class Obj:
    """Equality, order and hash by key; identity tells copies apart."""
    __slots__ = ("key", "tag", "__weakref__")

    def __init__(self, key, tag=0):
        self.key = key
        self.tag = tag

    def __eq__(self, other):
        return self.key == other.key if isinstance(other, Obj) else NotImplemented

    def __lt__(self, other):
        return self.key < other.key if isinstance(other, Obj) else NotImplemented

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "Obj(%r,%r)" % (self.key, self.tag)


class Plain:
    __slots__ = ("__weakref__",)


class Index:
    """An object with __index__ only."""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


class IntSub(int):
    pass


class Boom(Exception):
    """Raised by the callbacks of cases."""


class Never:
    """Equal to nothing, not even itself."""
    __slots__ = ("__weakref__",)
    __hash__ = None

    def __eq__(self, other):
        return False

    def __lt__(self, other):
        return True

    __gt__ = __lt__


class Always:
    """Equal to everything."""
    __slots__ = ("__weakref__",)
    __hash__ = None

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


class Raiser:
    """Its comparisons fail."""
    __slots__ = ("__weakref__",)
    __hash__ = None

    def __eq__(self, other):
        raise Boom("eq")

    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__


class NonBool:
    """Its comparisons return things that are no bools."""
    __slots__ = ("key", "__weakref__")
    __hash__ = None

    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        return [1] if isinstance(other, NonBool) and self.key == other.key else []

    def __ne__(self, other):
        return () if isinstance(other, NonBool) and self.key == other.key else "x"

    def __lt__(self, other):
        return 7 if isinstance(other, NonBool) and self.key < other.key else 0.0


class BadBool:
    """Comparing works, but the result has no truth value."""
    __slots__ = ("__weakref__",)
    __hash__ = None

    class R:
        def __bool__(self):
            raise Boom("bool")

    def __eq__(self, other):
        return BadBool.R()

    __lt__ = __eq__


def spec_object(s, n):
    k = s[0]
    if k == "i":
        return s[1]
    if k == "s":
        return s[1]
    if k == "f":
        return float(s[1])
    if k == "n":
        return None
    if k == "b":
        return bool(s[1])
    if k == "o":
        return Obj(s[1], n)
    if k == "p":
        return Plain()
    if k == "l":
        return list(s[1])
    if k == "t":
        return tuple(s[1])
    if k == "y":
        return bytes(s[1])
    if k == "I":
        return IntSub(s[1])
    if k == "nv":
        return Never()
    if k == "ae":
        return Always()
    if k == "rz":
        return Raiser()
    if k == "nb":
        return NonBool(s[1])
    if k == "bb":
        return BadBool()
    raise Invalid("spec %r" % (s,))


class HintIter:
    """An iterator whose __length_hint__ is wrong."""

    def __init__(self, items, hint):
        self.it = iter(items)
        self.hint = hint

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __length_hint__(self):
        return self.hint


class SeqOnly:
    """The old sequence protocol: __len__ and __getitem__ only."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class IterOnly:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class ListSub(list):
    pass


SOURCE_KINDS = ("list", "tuple", "gen", "iter", "dict", "hint0", "hintbig", "seq", "iterable", "listsub",
                "same", "IAL", "BIAL", "ILL", "OAL", "OLL", "sub")
REITERABLE = ("list", "tuple", "listsub", "same", "IAL", "BIAL", "ILL", "OAL", "OLL", "sub", "self")


class World:
    """One container under test and its model."""
    loose_sort = False

    def __init__(self, case, init=None):
        self.cls = case["cls"]
        if self.cls not in CLASSES:
            raise Invalid("class")
        self.obj = self.cls in OBJS
        self.type = (SUBCLASSES if case.get("sub") else CLASSES)[self.cls]
        self.pool = [spec_object(s, i) for i, s in enumerate(case.get("pool", []))]
        if self.obj and not self.pool:
            raise Invalid("pool")
        self.model = self.values(case["init"])
        self.real = self.make(self.model, case.get("how", "list"))

    def val(self, v):
        if not isinstance(v, int):
            raise Invalid("value")
        if self.obj:
            return self.pool[v % len(self.pool)]
        lo, hi = RANGE[self.cls]
        if not lo <= v <= hi:
            raise Invalid("range")
        return v

    def values(self, spec):
        """A list of values, or ["lin", n, a, b, m]: (a*i+b) % m, centred."""
        if spec and spec[0] == "lin":
            _, n, a, b, m = spec
            if not (0 <= n <= 1100000 and m > 0):
                raise Invalid("lin")
            if self.obj:
                p = self.pool
                k = len(p)
                return [p[(a * i + b) % m % k] for i in range(n)]
            lo, hi = RANGE[self.cls]
            out = [(a * i + b) % m - m // 2 for i in range(n)]
            if out and not (lo <= min(out) and max(out) <= hi):
                raise Invalid("lin range")
            return out
        return [self.val(v) for v in spec]

    def make(self, values, how="list"):
        if how == "list":
            return self.type(list(values))
        if how == "append":
            r = self.type()
            for v in values:
                r.append(v)
            return r
        if how == "extend":
            r = self.type()
            r.extend(list(values))
            return r
        if how == "size":
            if self.cls not in ARRAYS:
                return self.type(list(values))
            r = self.type(len(values) + 3)
            r.extend(values)
            return r
        if how == "insert0":
            r = self.type()
            for v in reversed(values):
                r.insert(0, v)
            return r
        return self.type(self.source(how, values))

    def source(self, kind, values):
        """An iterable of the given kind over values (a Python list)."""
        if kind == "list":
            return list(values)
        if kind == "tuple":
            return tuple(values)
        if kind == "gen":
            return (v for v in values)
        if kind == "iter":
            return iter(list(values))
        if kind == "dict":
            try:
                if len(dict.fromkeys(values)) == len(values):
                    return dict.fromkeys(values)
            except TypeError:
                pass
            return list(values)
        if kind == "hint0":
            return HintIter(list(values), 0)
        if kind == "hintbig":
            return HintIter(list(values), len(values) + 50)
        if kind == "seq":
            return SeqOnly(list(values))
        if kind == "iterable":
            return IterOnly(list(values))
        if kind == "listsub":
            return ListSub(values)
        if kind == "same":
            return self.type(list(values))
        if kind == "sub":
            return SUBCLASSES[self.cls](list(values))
        if kind in CLASSES:
            try:
                return CLASSES[kind](list(values))
            except Exception:
                return list(values)
        raise Invalid("source %r" % (kind,))

    def src(self, spec):
        """(object for the container, object for the model) of a source spec
        [kind, values] or ["self"]."""
        if spec[0] == "self":
            return self.real, self.model
        vals = self.values(spec[1])
        s = self.source(spec[0], vals)
        if spec[0] in CLASSES and type(s) is not list:
            return s, s.to_list()
        return s, list(vals)

    # -- comparison
    def eqv(self, a, b):
        """Is element a (from the container) the element b (of the model)?"""
        if self.obj:
            return a is b or (type(a) is int and type(b) is int and a == b)
        return type(a) is int and a == b

    def eql(self, xs, model):
        if type(xs) is not list or len(xs) != len(model):
            return False
        if self.obj:
            return all(map(operator.is_, xs, model)) or all(map(self.eqv, xs, model))
        # == of lists of plain ints; the types are checked on top
        return xs == model and (not xs or set(map(type, xs)) == {int})

    def show(self, xs):
        if isinstance(xs, list) and len(xs) > 300:
            return repr(xs[:30])[:-1] + ", ... (%d items)]" % len(xs)
        s = repr(xs)
        return s if len(s) < 400 else s[:380] + "... (%d items)" % len(xs)

    def check_state(self, what, full=True):
        m = self.model
        r = self.real
        got = r.to_list()
        if not self.eql(got, m):
            raise Violation("%s: contents %s, a list would hold %s" % (what, self.show(got), self.show(m)))
        if len(r) != len(m):
            raise Violation("%s: len %d, expected %d" % (what, len(r), len(m)))
        if full:
            got = [x for x in r]
            if not self.eql(got, m):
                raise Violation("%s: iteration gives %s, expected %s" % (what, self.show(got), self.show(m)))
            got = list(reversed(r))
            if not self.eql(got, m[::-1]):
                raise Violation("%s: reversed gives %s, expected %s" % (what, self.show(got), self.show(m[::-1])))
            n = len(m)
            idx = range(n) if n <= 64 else list(range(0, 8)) + list(range(8, n - 8, n // 40 + 1)) + list(range(n - 8, n))
            for i in idx:
                if not self.eqv(r[i], m[i]):
                    raise Violation("%s: [%d] is %r, expected %r" % (what, i, r[i], m[i]))
                if not self.eqv(r[i - n], m[i - n]):
                    raise Violation("%s: [%d] is %r, expected %r" % (what, i - n, r[i - n], m[i - n]))


def mark(x):
    """Identity, except that ints are their values (a container may make new ones)."""
    return ("n", x) if type(x) is int else ("o", id(x))


def run_both(f_real, f_model):
    try:
        a = ("ok", f_real())
    except Exception as e:
        # without its traceback: that would keep the frames, and their references, alive
        a = ("exc", e.with_traceback(None))
    try:
        b = ("ok", f_model())
    except Exception as e:
        b = ("exc", e.with_traceback(None))
    return a, b


def mkslice(s):
    return slice(*s)
