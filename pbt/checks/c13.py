"""C13: buffer views show the live elements."""
import ctypes
import gc
import io
import struct

import numpy
from hypothesis import strategies as st

from pbt import gen
from pbt.cont import CLASSES as CONT, World
from pbt.engine import Invalid, Violation
from pbt.ops import SSIZE, step

CLASSES = ("IAL", "BIAL")
FMT = {"IAL": "i", "BIAL": "q"}
FORMATS = {"IAL": ("i",), "BIAL": ("q", "l")}
SIZE = {"IAL": 4, "BIAL": 8}
KINDS = ("mv", "mv", "np", "np", "cast", "frombuffer", "nparray")
BY_LIST = ("setitem", "reverse", "sort", "index", "count", "in", "getitem", "getslice", "len", "repr", "to_list", "copy", "iter", "mul", "reversed", "add")
RESIZING = ("append", "extend", "insert", "pop", "popi", "clear", "resize", "setslice", "delslice", "iadd", "imul", "remove", "delitem")


@gen.cached
def ops(cls, n, vals, max_ops):
    t = gen.op_table(cls, n, vals)
    who = st.integers(0, 5)
    mine = gen.pick(t, {"setitem": 6, "reverse": 4, "sort": 4, "index": 1, "count": 1, "in": 1, "getitem": 2, "getslice": 1, "len": 1, "repr": 1,
                        "to_list": 1, "copy": 1, "iter": 1, "mul": 1, "reversed": 1, "add": 1})
    grow = gen.pick(t, {"append": 3, "extend": 3, "insert": 2, "pop": 2, "popi": 2, "clear": 1, "resize": 4, "setslice": 3, "delslice": 2, "iadd": 2,
                        "imul": 1, "remove": 1, "delitem": 1})
    op = st.one_of(mine, mine, grow, grow,
                   gen.cmd("view", st.sampled_from(KINDS)), gen.cmd("view", st.sampled_from(KINDS)),
                   gen.cmd("sub", who, gen.slices(n)), gen.cmd("write", who, gen.indices(n), vals), gen.cmd("write", who, gen.indices(n), vals),
                   gen.cmd("inplace", who, st.sampled_from(["sort", "rev", "add", "fill"])),
                   gen.cmd("release", who), gen.cmd("releaseall"), gen.cmd("bytes"), gen.cmd("readinto", st.lists(vals, max_size=6)))
    last = st.one_of(gen.cmd("write", who, gen.indices(n), vals), gen.cmd("sub", who, gen.slices(n)), gen.cmd("release", who),
                     gen.cmd("churn", st.integers(0, 40)))
    return st.tuples(st.lists(op, min_size=1, max_size=max_ops), st.lists(last, max_size=4)).map(lambda p: p[0] + [["drop"]] + p[1])


@st.composite
def cases(draw, max_ops):
    case, n, vals = draw(gen.worlds(classes=CLASSES, max_n=300, large=100000))
    if case["how"] == "dict":
        case["how"] = "list"
    case["ops"] = draw(ops(case["cls"], n, vals, max_ops))
    return case


class PyBuffer(ctypes.Structure):
    _fields_ = [("buf", ctypes.c_void_p), ("obj", ctypes.py_object), ("len", ctypes.c_ssize_t), ("itemsize", ctypes.c_ssize_t),
                ("readonly", ctypes.c_int), ("ndim", ctypes.c_int), ("format", ctypes.c_char_p),
                ("shape", ctypes.POINTER(ctypes.c_ssize_t)), ("strides", ctypes.POINTER(ctypes.c_ssize_t)),
                ("suboffsets", ctypes.POINTER(ctypes.c_ssize_t)), ("internal", ctypes.c_void_p)]


FLAGS = {"simple": 0, "writable": 1, "format": 4, "nd": 8, "strides": 0x18, "c_contig": 0x38, "f_contig": 0x58, "any_contig": 0x98,
         "indirect": 0x118, "contig": 9, "strided": 0x19, "records": 0x1d, "full": 0x11d, "full_ro": 0x11c}


class View:
    def __init__(self, obj, kind, idx):
        self.obj, self.kind, self.idx = obj, kind, idx


class C13:
    id = "C13"

    def strategy(self, tier):
        raw = st.fixed_dictionaries({
            "raw": st.lists(st.tuples(st.sampled_from(["IAL", "BIAL", "again"]), st.integers(0, 40), st.sampled_from(sorted(FLAGS))).map(list),
                            min_size=1, max_size=40),
            "release": st.lists(st.integers(0, 40), max_size=10), "drop": st.booleans()})
        return st.one_of(cases(14), cases(14), cases(14), cases(14), raw)

    def enumerated(self, tier):
        for f in sorted(FLAGS):
            for cls in CLASSES:
                for n in (0, 1, 5):
                    yield {"raw": [[cls, n, f], [cls, n + 1, f]], "drop": n == 5}
        for n in (2, 3, 5, 9, 17, 33, 65, 130, 300):
            for classes in (("IAL",), ("BIAL",), ("IAL", "BIAL")):
                yield {"raw": [[classes[i % len(classes)], i + 1, "full"] for i in range(n)], "drop": n % 2 == 0}
        for cls in CLASSES:
            for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 1000, 5001]:
                for how in ("list", "append") if tier == "quick" else ("list", "append", "insert0", "gen"):
                    for kind in sorted(set(KINDS)):
                        init = ["lin", n, 37, 5, 1009]
                        for by in (["setitem", 0, -1], ["setitem", -1, 2**31 - 1], ["reverse"], ["sort", {"r": None, "k": None}],
                                   ["sort", {"r": True, "k": None}], ["sort", {"r": None, "k": "mod7"}], ["resize", n + 3], ["imul", 2]):
                            yield {"cls": cls, "init": init, "how": how,
                                   "ops": [["view", kind], ["view", "mv"], by, ["bytes"], ["inplace", 0, "rev"], ["inplace", 1, "sort"], ["releaseall"], by,
                                           ["view", kind], ["write", 0, 0, -2**31], ["drop"], ["churn", 9], ["write", 0, -1, 7]]}

    def check_view(self, w, v, buf, what):
        o, cls = v.obj, w.cls
        want = [buf[i] for i in v.idx]
        size = SIZE[cls]
        if v.kind == "np":
            if o.dtype.kind != "i" or o.dtype.itemsize != size or o.dtype.byteorder not in "=|<":
                raise Violation("%s: the dtype is %r" % (what, o.dtype))
            if o.shape != (len(want),) or not o.flags.writeable:
                raise Violation("%s: the array has shape %r and flags %r, expected %d elements" % (what, o.shape, o.flags, len(want)))
            got = o.tolist()
        elif v.kind == "mv":
            if o.format not in FORMATS[cls] or o.itemsize != size or o.ndim != 1 or o.readonly:
                raise Violation("%s: format %r, itemsize %r, ndim %r, readonly %r" % (what, o.format, o.itemsize, o.ndim, o.readonly))
            if o.shape != (len(want),) or o.nbytes != size * len(want) or len(o) != len(want):
                raise Violation("%s: shape %r, nbytes %r, expected %d elements" % (what, o.shape, o.nbytes, len(want)))
            step = v.idx.step
            if o.strides != (size * step,) and len(want) > 1:
                raise Violation("%s: strides %r" % (what, o.strides))
            if step == 1 and not o.c_contiguous:
                raise Violation("%s: not contiguous" % what)
            got = o.tolist()
        else:
            if o.nbytes != size * len(want):
                raise Violation("%s: nbytes %r, expected %d" % (what, o.nbytes, size * len(want)))
            got = list(struct.unpack("=%d%s" % (len(want), FMT[cls]), o.tobytes()))
        if got != want or not w.eql(got, want):
            raise Violation("%s: the view shows %s, the list holds %s" % (what, w.show(got), w.show(want)))

    def raw(self, case, ctx):
        """Many exported buffers at once, as C extensions hold them: what they were told stays valid until the release."""
        lists = []
        held = []
        for cls, n, flags in case["raw"]:
            if cls == "again":
                x, want, cls = lists[n % len(lists)] if lists else (None, None, None)
                if x is None:
                    continue
            elif cls in CLASSES:
                want = [(i * 7919 - n) for i in range(n)]
                x = CONT[cls](want)
            else:
                raise Invalid("class")
            lists.append((x, want, cls))
            b = PyBuffer()
            if ctypes.pythonapi.PyObject_GetBuffer(ctypes.py_object(x), ctypes.byref(b), FLAGS[flags]) != 0:
                raise Violation("PyObject_GetBuffer(%s of %d elements, %s) failed" % (cls, len(want), flags))
            held.append((b, want, cls, flags))
        del x
        for i in case.get("release", []):
            if held:
                b = held.pop(i % len(held))[0]
                ctypes.pythonapi.PyBuffer_Release(ctypes.byref(b))
        if case.get("drop"):
            lists.clear()
        for k, (b, want, cls, flags) in enumerate(held):
            what = "buffer %d of %d (%s of %d elements, flags %s)" % (k, len(held), cls, len(want), flags)
            size, f = SIZE[cls], FLAGS[flags]
            if b.len != len(want) * size or b.itemsize != size or b.readonly or b.ndim != 1 or b.suboffsets:
                raise Violation("%s: len %d, itemsize %d, readonly %d, ndim %d" % (what, b.len, b.itemsize, b.readonly, b.ndim))
            if f & 4 and (not b.format or b.format.decode() not in FORMATS[cls]):
                raise Violation("%s: format %r" % (what, b.format))
            if f & 8 and (not b.shape or b.shape[0] != len(want)):
                raise Violation("%s: shape %r" % (what, b.shape and b.shape[0]))
            if f & 0x10 and (not b.strides or b.strides[0] != size):
                raise Violation("%s: strides %r" % (what, b.strides and b.strides[0]))
            if want and ctypes.string_at(b.buf, b.len) != struct.pack("=%d%s" % (len(want), FMT[cls]), *want):
                raise Violation("%s: other elements" % what)
        for b, _, _, _ in held:
            ctypes.pythonapi.PyBuffer_Release(ctypes.byref(b))
        ctx.label("raw buffers")
        ctx.nt(len(held) > 1)

    def run(self, case, ctx):
        if "raw" in case:
            return self.raw(case, ctx)
        w = World(case)
        if w.cls not in CLASSES:
            raise Invalid("class")
        size, fmt = SIZE[w.cls], FMT[w.cls]
        views = []
        touched = False
        lo, hi = (-2**31, 2**31 - 1) if w.cls == "IAL" else (-2**63, 2**63 - 1)

        for k, op in enumerate(case["ops"]):
            name = op[0]
            m = w.model
            what = "%s step %d %s" % (w.type.__name__, k, w.show(op))
            if name == "view":
                if w.real is None:
                    continue
                full = range(0, len(m), 1)
                if op[1] == "mv":
                    views.append(View(memoryview(w.real), "mv", full))
                elif op[1] == "np":
                    a = numpy.asarray(w.real)
                    views.append(View(a, "np", full))
                elif op[1] == "nparray":
                    # a copy: must not follow later changes
                    a = numpy.array(w.real)
                    if a.dtype.itemsize != size or a.dtype.kind != "i" or a.tolist() != m:
                        raise Violation("%s: numpy.array gives %r" % (what, a))
                elif op[1] == "cast":
                    if m:
                        views.append(View(memoryview(w.real).cast("B"), "cast", full))
                elif op[1] == "frombuffer":
                    if m:
                        views.append(View(numpy.frombuffer(w.real, dtype="=i%d" % size), "np", full))
                else:
                    raise Invalid("kind")
                ctx.label("view:" + op[1])
            elif name in ("sub", "write", "inplace", "release"):
                if not views:
                    continue
                j = op[1] % len(views)
                v = views[j]
                if name == "sub":
                    if v.kind == "cast":
                        continue
                    c = slice(*op[2])
                    if any(x is not None and abs(x) > SSIZE for x in op[2]):
                        continue
                    if len(views) < 8:
                        views.append(View(v.obj[c], v.kind, v.idx[c]))
                elif name == "write":
                    if not v.idx:
                        continue
                    i = op[2] % len(v.idx)
                    val = w.val(op[3])
                    if v.kind == "cast":
                        v.obj[i * size:(i + 1) * size] = struct.pack("=" + fmt, val)
                    else:
                        v.obj[i - len(v.idx) if op[2] < 0 else i] = val
                    m[v.idx[i]] = val
                    touched = True
                    ctx.label("write:" + v.kind)
                elif name == "inplace":
                    if v.kind != "np":
                        continue
                    old = [m[i] for i in v.idx]
                    if op[2] == "sort":
                        v.obj.sort()
                        old.sort()
                    elif op[2] == "rev":
                        v.obj[:] = v.obj[::-1].copy()
                        old.reverse()
                    elif op[2] == "add":
                        if any(not lo <= x + 3 <= hi for x in old):
                            continue
                        v.obj += 3
                        old = [x + 3 for x in old]
                    else:
                        v.obj[...] = -9
                        old = [-9] * len(old)
                    for i, x in zip(v.idx, old):
                        m[i] = x
                    touched = touched or bool(old)
                    ctx.label("inplace")
                else:
                    if v.kind == "np":
                        views.remove(v)
                    else:
                        v.obj.release()
                        views.remove(v)
                v = None
            elif name == "releaseall":
                for v in views:
                    if v.kind != "np":
                        v.obj.release()
                views.clear()
                v = None
            elif name == "bytes":
                if w.real is None:
                    continue
                want = struct.pack("=%d%s" % (len(m), fmt), *m)
                for got in (bytes(w.real), b"".join([w.real]), bytes(memoryview(w.real)), bytearray(w.real)):
                    if got != want:
                        raise Violation("%s: the bytes are %r, expected %r" % (what, got[:200], want[:200]))
            elif name == "readinto":
                if w.real is None:
                    continue
                vals = [w.val(x) for x in op[1]][:len(m)]
                if not m:
                    continue
                got = io.BytesIO(struct.pack("=%d%s" % (len(vals), fmt), *vals)).readinto(w.real)
                if got != len(vals) * size:
                    raise Violation("%s: readinto wrote %r bytes" % (what, got))
                m[:len(vals)] = vals
                touched = True
            elif name == "drop":
                w.real = None
                gc.collect(0)
                ctx.label("dropped with views" if views else "dropped")
            elif name == "churn":
                # something else takes the memory, if it has been released
                n = max(1, len(m))
                junk = [w.type([0x5A5A5A5A] * n) for _ in range(op[1])]
                del junk
            elif name in BY_LIST or name in RESIZING:
                if w.real is None or (name in RESIZING and views):
                    # (known finding: changing the length under an exported buffer)
                    continue
                if name == "setslice" and op[2][0] == "self":
                    continue
                step(w, op)
                if views and name in ("setitem", "reverse", "sort") and m:
                    touched = True
                    ctx.label("changed under a view:" + name)
            else:
                raise Invalid("op")
            if w.real is not None:
                w.check_state("after " + what, full=False)
            for v in views:
                self.check_view(w, v, m, "after " + what)
            v = None
        ctx.nt(touched)


CHECK = C13()
