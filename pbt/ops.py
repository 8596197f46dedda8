"""Operations of the case language, run on a container and on its list model.

step(w, op) runs one operation on both, compares the outcomes and leaves the
two in corresponding states; it raises Violation otherwise.
"""
from pbt.cont import (ALL_TYPES, ARRAYS, Obj, Plain, World, mark, run_both)
from pbt.engine import Invalid, Violation

SSIZE = 2**63 - 1
LIST_LIKE = ("list", "listsub", "tuple", "seq", "same", "IAL", "BIAL", "ILL", "OAL", "OLL", "sub", "self")

KEYS = {
    "id": lambda x: x,
    "neg": lambda x: -x,
    "mod3": lambda x: x % 3,
    "mod7": lambda x: x % 7,
    "const": lambda x: 0,
    "abs": abs,
    "str": str,
    "len": lambda x: len(str(x)),
    "tup": lambda x: (x % 5, -x),
    "float": float,
    "big": lambda x: x * (1 << 70),
    "okey": lambda x: getattr(x, "key", 0),
    "ohash": lambda x: (type(x).__name__, getattr(x, "key", 0) if isinstance(x, Obj) else str(x)),
}


def need(cond, what="op"):
    if not cond:
        raise Invalid(what)


def as_int(x):
    need(isinstance(x, int) and not isinstance(x, bool), "int")
    return x


def sl(spec):
    need(isinstance(spec, list) and len(spec) == 3, "slice")
    for x in spec:
        need(x is None or isinstance(x, int), "slice")
    return slice(*spec)


def describe(o, w):
    if o[0] == "exc":
        return "%s(%s)" % (type(o[1]).__name__, str(o[1])[:80])
    return w.show(o[1].to_list() if isinstance(o[1], ALL_TYPES) else o[1])


STRICT = (IndexError, ValueError)


def compare(w, op, a, b, lenient=None):
    """a: outcome of the container, b: of the list.  lenient: types of
    exceptions that the container may raise although the list did not."""
    if a[0] == "exc":
        if lenient and isinstance(a[1], lenient):
            return False                      # refused; the caller checks that nothing changed
        if b[0] == "ok":
            raise Violation("%s raised %s, a list gives %s" % (op, describe(a, w), describe(b, w)))
        if isinstance(b[1], STRICT) and not isinstance(a[1], type(b[1])):
            raise Violation("%s raised %s, a list raises %s" % (op, describe(a, w), describe(b, w)))
        return True
    if b[0] == "exc":
        raise Violation("%s gave %s, a list raises %s" % (op, describe(a, w), describe(b, w)))
    return True


def same_value(w, op, x, y):
    """Results: an element, a bool/int/None, or a list of elements."""
    if isinstance(y, list):
        if isinstance(x, ALL_TYPES):
            x = x.to_list()
        if not w.eql(x, y):
            raise Violation("%s gave %s, a list gives %s" % (op, w.show(x), w.show(y)))
    elif y is None or isinstance(y, bool):
        if x is not y:
            raise Violation("%s gave %r, a list gives %r" % (op, x, y))
    elif isinstance(y, (int, str)) and not isinstance(y, bool):
        if type(x) is not type(y) or x != y:
            raise Violation("%s gave %r, a list gives %r" % (op, x, y))
    elif x is not y:
        raise Violation("%s gave %r, a list gives %r" % (op, x, y))


def elem_value(w, op, x, y):
    if not w.eqv(x, y):
        raise Violation("%s gave %r, a list gives %r" % (op, x, y))


def binary(w, op, f_real, f_model, elem=False, lenient=None):
    """Runs both; compares outcome and result.  Returns the two outcomes."""
    before = list(w.model) if lenient else None
    a, b = run_both(f_real, f_model)
    if not compare(w, op, a, b, lenient):
        w.model[:] = before
        return a, ("exc", a[1])
    if a[0] == "ok":
        (elem_value if elem else same_value)(w, op, a[1], b[1])
    return a, b


def do_set(x, i, v):
    x[i] = v


def do_del(x, i):
    del x[i]


def sort_kwargs(spec):
    kw = {}
    if spec.get("r") is not None:
        kw["reverse"] = spec["r"]
    if spec.get("k"):
        need(spec["k"] in KEYS, "key")
        kw["key"] = KEYS[spec["k"]]
    return kw


def step(w: World, op, ctx=None):
    name = op[0]
    r, m = w.real, w.model
    show = "%s %s" % (w.type.__name__, op)
    n = len(m)

    if name == "append":
        v = w.val(op[1])
        binary(w, show, lambda: r.append(v), lambda: m.append(v))
    elif name == "extend":
        s, ms = w.src(op[1])
        binary(w, show, lambda: r.extend(s), lambda: m.extend(list(ms)))
    elif name == "insert":
        i = as_int(op[1])
        need(abs(i) <= SSIZE)
        v = w.val(op[2])
        binary(w, show, lambda: r.insert(i, v), lambda: m.insert(i, v))
    elif name == "pop":
        binary(w, show, lambda: r.pop(), lambda: m.pop(), elem=True)
    elif name == "popi":
        i = as_int(op[1])
        need(abs(i) <= SSIZE)
        binary(w, show, lambda: r.pop(i), lambda: m.pop(i), elem=True)
    elif name == "remove":
        v = w.val(op[1])
        binary(w, show, lambda: r.remove(v), lambda: m.remove(v))
    elif name == "clear":
        binary(w, show, lambda: r.clear(), lambda: m.clear())
    elif name == "reverse":
        binary(w, show, lambda: r.reverse(), lambda: m.reverse())
    elif name == "sort":
        kw = sort_kwargs(op[1])
        old = list(m)
        a, b = run_both(lambda: r.sort(**kw), lambda: m.sort(**kw))
        if not w.loose_sort:
            compare(w, show, a, b)
        elif a[0] == "exc" and isinstance(a[1], SystemError):
            raise Violation("%s raised %r" % (show, a[1]))
        if b[0] == "exc" or a[0] == "exc":
            # both failed part-way: any permutation will do
            got = r.to_list()
            if sorted(map(id, got)) != sorted(map(id, old)) and sorted(map(str, got)) != sorted(map(str, old)):
                raise Violation("%s raised and left %s of %s" % (show, w.show(got), w.show(old)))
            w.model[:] = got
        elif a[1] is not None:
            raise Violation("%s returned %r" % (show, a[1]))
        elif w.loose_sort:
            # elements without a consistent order: any permutation will do
            got = r.to_list()
            if sorted(map(mark, got)) != sorted(map(mark, m)):
                raise Violation("%s left %s of %s" % (show, w.show(got), w.show(old)))
            m[:] = got
    elif name == "setitem":
        i, v = as_int(op[1]), w.val(op[2])
        binary(w, show, lambda: do_set(r, i, v), lambda: do_set(m, i, v))
    elif name == "delitem":
        i = as_int(op[1])
        binary(w, show, lambda: do_del(r, i), lambda: do_del(m, i))
    elif name == "setslice":
        c = sl(op[1])
        s, ms = w.src(op[2])
        lenient = []
        if c.step not in (None, 1) and w.cls != "OLL":
            lenient.append(NotImplementedError)     # documented by its message: "step must be 1"
        if op[2][0] not in LIST_LIKE:
            lenient.append(TypeError)               # only sequences are accepted
        binary(w, show, lambda: do_set(r, c, s), lambda: do_set(m, c, list(ms)), lenient=tuple(lenient) or None)
    elif name == "delslice":
        c = sl(op[1])
        binary(w, show, lambda: do_del(r, c), lambda: do_del(m, c))
    elif name == "iadd":
        s, ms = w.src(op[1])
        x = r
        try:
            x += s
        except Exception as e:
            raise Violation("%s raised %s: %s" % (show, type(e).__name__, e))
        if x is not r:
            raise Violation("%s: += rebound the name to %r" % (show, x))
        m += list(ms)
    elif name == "imul":
        k = as_int(op[1])
        need(k * n <= 300000)
        x = r
        try:
            x *= k
        except Exception as e:
            raise Violation("%s raised %s: %s" % (show, type(e).__name__, e))
        if x is not r:
            raise Violation("%s: *= rebound the name to %r" % (show, x))
        m *= k
    elif name == "resize":
        need(w.cls in ARRAYS)
        k = as_int(op[1])
        need(0 <= k <= 300000)
        fill = None if w.obj else 0
        binary(w, show, lambda: r.resize(k), lambda: (m.__delitem__(slice(k, None)), m.extend([fill] * (k - len(m))))[1])
    # ---- observers
    elif name == "index":
        args = [as_int(x) for x in op[2:]]
        v = w.val(op[1])
        lenient = OverflowError if any(abs(x) > SSIZE for x in args) else None
        binary(w, show, lambda: r.index(v, *args), lambda: m.index(v, *args), lenient=lenient)
    elif name == "count":
        v = w.val(op[1])
        binary(w, show, lambda: r.count(v), lambda: m.count(v))
    elif name == "in":
        v = w.val(op[1])
        binary(w, show, lambda: v in r, lambda: v in m)
    elif name == "notin":
        v = w.val(op[1])
        binary(w, show, lambda: v not in r, lambda: v not in m)
    elif name == "getitem":
        i = as_int(op[1])
        binary(w, show, lambda: r[i], lambda: m[i], elem=True)
    elif name == "getslice":
        c = sl(op[1])
        binary(w, show, lambda: r[c], lambda: m[c])
    elif name == "len":
        binary(w, show, lambda: len(r), lambda: len(m))
    elif name == "bool":
        binary(w, show, lambda: bool(r), lambda: bool(m))
    elif name == "repr":
        binary(w, show, lambda: repr(r), lambda: repr(m))
        binary(w, show, lambda: str(r), lambda: str(m))
    elif name == "to_list":
        a, b = binary(w, show, lambda: r.to_list(), lambda: list(m))
        a[1].append(None)                            # the list is the caller's own
    elif name == "copy":
        a, b = binary(w, show, lambda: r.copy(), lambda: m.copy())
        check_new(w, show, a[1], m)
    elif name == "iter":
        binary(w, show, lambda: [x for x in r], lambda: list(m))
    elif name == "reversed":
        binary(w, show, lambda: [x for x in reversed(r)], lambda: m[::-1])
    elif name == "mul":
        k = as_int(op[1])
        need(k * n <= 300000)
        a, b = binary(w, show, lambda: r * k, lambda: m * k)
        check_new(w, show, a[1], b[1])
        a, b = binary(w, show + " (from the left)", lambda: k * r, lambda: k * m)
        check_new(w, show, a[1], b[1])
    elif name == "add":
        kind = op[1][0]
        need(kind in ("list", "same", "self"))
        s, ms = w.src(op[1])
        keep = list(ms)
        # (instances of subclasses may be refused as operands)
        lenient = TypeError if w.type.__name__.startswith("Sub") and kind != "list" else None
        a, b = binary(w, show, lambda: r + s, lambda: m + list(ms), lenient=lenient)
        if a[0] == "ok" and isinstance(a[1], ALL_TYPES):
            check_new(w, show, a[1], b[1])
        if not w.eql(list(s), keep):
            raise Violation("%s changed its operand to %s" % (show, w.show(list(s))))
    else:
        raise Invalid("op %r" % (name,))
    if ctx is not None:
        ctx.label("op:" + name)
    return name


MUTATORS = ("append", "extend", "insert", "pop", "popi", "remove", "clear", "reverse", "sort", "setitem", "delitem",
            "setslice", "delslice", "iadd", "imul", "resize")


def check_new(w, what, new, expected):
    """new is a container of its own that holds expected: changing it must not
    change w.real, and it has to work like any other container."""
    if new is w.real:
        raise Violation("%s returned the container itself" % what)
    if isinstance(new, ALL_TYPES):
        if not w.eql(new.to_list(), expected) or len(new) != len(expected):
            raise Violation("%s: the result holds %s, expected %s" % (what, w.show(new.to_list()), w.show(expected)))
        if expected:
            new.append(expected[0])
            new.pop(0)
            if not w.eql(new.to_list(), expected[1:] + expected[:1]):
                raise Violation("%s: the result misbehaves: %s" % (what, w.show(new.to_list())))
