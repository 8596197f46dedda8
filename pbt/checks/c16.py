"""C16: Unsafe object and function access."""
import ctypes
import sys
import weakref

from hypothesis import strategies as st

from pbt import gen
from pbt.checks.c15 import diff, pattern
from pbt.cont import Obj, Plain
from pbt.engine import Invalid, Violation
from pyfastutil.objects import ObjectArrayList
from pyfastutil.ints import IntArrayList
from pyfastutil.unsafe import NULL, Unsafe

N = 8192
CALLS = [0, 0]
RESULT = [0]


@ctypes.CFUNCTYPE(ctypes.c_int64)
def f64():
    CALLS[0] += 1
    return RESULT[0]


@ctypes.CFUNCTYPE(ctypes.c_int32)
def f32():
    CALLS[0] += 1
    return RESULT[0]


@ctypes.CFUNCTYPE(None)
def fvoid():
    CALLS[0] += 1


@ctypes.CFUNCTYPE(ctypes.c_uint64)
def fptr():
    CALLS[0] += 1
    return RESULT[0]


F64, F32, FVOID, FPTR = (ctypes.cast(f, ctypes.c_void_p).value for f in (f64, f32, fvoid, fptr))
I32 = st.one_of(st.integers(-2**31, 2**31 - 1), st.sampled_from([0, 1, -1, 2**30, -2**30, 2**30 - 1, 2**31 - 1, -2**31, 255, 256, -5, -6]))
I64 = st.one_of(st.integers(-2**63, 2**63 - 1), I32, st.sampled_from([2**31, 2**32, 2**32 - 1, 2**60, -2**60, 2**63 - 1, -2**63, -2**31 - 1]))
NOBJ = 9


@gen.cached
def ops(max_ops):
    size = st.one_of(st.integers(0, 70), st.integers(0, 70), st.integers(0, 400), st.integers(0, 3000),
                     st.sampled_from([1, 2, 4, 8, 9, 16, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 192, 256, 257, 1024, 2048]))
    place = st.one_of(st.sampled_from([0, 64, 128, 1, 8, 16, 32, 63]), st.integers(0, 400))
    o = st.integers(0, NOBJ - 1)
    op = st.one_of(gen.cmd("void"), gen.cmd("int", I32), gen.cmd("int64", I64), gen.cmd("longlong", I64),
                   gen.cmd("call", st.integers(0, 8), I64, place), gen.cmd("callp", size, place, place), gen.cmd("callp", size, place, place),
                   gen.cmd("badcall", st.integers(0, 11)),
                   gen.ONE_IN_FORTY.flatmap(lambda k: gen.cmd("bigcall", st.one_of(st.integers(9, 20000), st.integers(9, 200000)), place, place)
                                            if k > 35 else gen.cmd("callp", size, place, place)),
                   gen.cmd("address", o), gen.cmd("object", o, st.integers(1, 5)), gen.cmd("keep", o), gen.cmd("unkeep"),
                   gen.cmd("incref", o, st.integers(1, 9)), gen.cmd("decref", o), gen.cmd("refcnt", o), gen.cmd("refcnt", o),
                   gen.cmd("outlive", st.integers(0, 3)), gen.cmd("badobj", st.integers(0, 3)), gen.cmd("immortal", st.integers(0, 4)))
    return st.lists(op, min_size=1, max_size=max_ops)


class C16:
    id = "C16"

    def strategy(self, tier):
        return st.builds(lambda o: {"ops": o}, ops(16))

    def enumerated(self, tier):
        for v in [0, 1, -1, 2, 127, 128, 255, 256, 65535, 65536, 2**30 - 1, 2**30, 2**31 - 1, -2**31, 2**31, 2**32 - 1, 2**32, 2**60, 2**62, 2**63 - 1, -2**63]:
            yield {"ops": [["int64", v], ["longlong", v]] + [["call", s, v, 64 + s] for s in range(9)]}
            if -2**31 <= v < 2**31:
                yield {"ops": [["int", v], ["void"]]}
        for s in range(0, 600 if tier == "quick" else 4000):
            yield {"ops": [["callp", s, a, b] for a, b in ((0, 0), (64, 0), (0, 64), (1, 0), (0, 1), (7, 13), (32, 32), (16, 48))]}
        for big in (4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20) + ((1 << 22, 1 << 24) if tier != "quick" else ()):
            for d in (-33, -1, 0, 1, 7, 16, 31, 32, 33, 45, 63, 64, 65, 127):
                for a, b in ((0, 0), (64, 1), (7, 13)):
                    yield {"ops": [["bigcall", big + d, a, b]]}
        for b in range(12):
            yield {"ops": [["badcall", b], ["badobj", b % 4], ["immortal", b % 5], ["outlive", b % 4]]}
        for o in range(NOBJ):
            for k in range(1, 12):
                yield {"ops": [["incref", o, k], ["refcnt", o], ["object", o, k], ["address", o], ["decref", o], ["keep", o], ["decref", o], ["refcnt", o]]}

    def run(self, case, ctx):
        u = Unsafe()
        buf = ctypes.create_string_buffer(2 * N + 64)
        a0 = ctypes.addressof(buf)
        a0 += -a0 % 64
        content = bytearray(pattern(2 * N, 99))
        ctypes.memmove(a0, bytes(content), 2 * N)
        objs = [Obj(1), Obj(2), Plain(), [1, 2], {"a": 1}, "a string of its own %d" % id(case), 12345678901234567890 + len(case["ops"]),
                ObjectArrayList([1]), IntArrayList([1, 2])]
        base = [sys.getrefcount(x) for x in objs]
        extra = [0] * NOBJ
        kept = []
        src, dst = a0, a0 + N
        calls = 0
        for k, op in enumerate(case["ops"]):
            name = op[0]
            what = "step %d %s" % (k, op)
            if not all(isinstance(x, int) for x in op[1:]):
                raise Invalid("arg")
            CALLS[0] = 0
            expect_calls = 0
            if name == "void":
                r = u.callVoid(FVOID)
                expect_calls = 1
                if r is not None:
                    raise Violation("%s returned %r" % (what, r))
            elif name == "int":
                if not -2**31 <= op[1] < 2**31:
                    raise Invalid("int")
                RESULT[0] = op[1]
                r = u.callInt(F32)
                expect_calls = 1
                self.same_int(what, r, op[1])
            elif name == "int64":
                RESULT[0] = self.i64(op[1])
                r = u.callInt(F64)
                expect_calls = 1
                self.same_int(what, r, ctypes.c_int32(op[1]).value)
            elif name == "longlong":
                RESULT[0] = self.i64(op[1])
                r = u.callLongLong(F64)
                expect_calls = 1
                self.same_int(what, r, op[1])
            elif name == "call":
                size, v, place = op[1:]
                if not (0 <= size <= 8 and 0 <= place <= N - 8):
                    raise Invalid("size")
                RESULT[0] = self.i64(v)
                r = u.call(F64, dst + place if size else NULL, size)
                expect_calls = 1
                if r is not None:
                    raise Violation("%s returned %r" % (what, r))
                content[N + place:N + place + size] = v.to_bytes(8, "little", signed=True)[:size]
            elif name == "callp":
                size, sp, dp = op[1:]
                if not (0 <= size <= N - 500 and 0 <= sp <= 500 and 0 <= dp <= 500):
                    raise Invalid("size")
                if size <= 8:
                    continue
                # other bytes for every call
                fresh = pattern(size, (k * 7 + size) % 1000)
                content[sp:sp + size] = fresh
                ctypes.memmove(src + sp, fresh, size)
                RESULT[0] = src + sp
                r = u.call(FPTR, dst + dp, size)
                expect_calls = 1
                if r is not None:
                    raise Violation("%s returned %r" % (what, r))
                content[N + dp:N + dp + size] = fresh
            elif name == "bigcall":
                size, sp, dp = op[1:]
                if not (9 <= size <= 1 << 25 and 0 <= sp <= 500 and 0 <= dp <= 500):
                    raise Invalid("size")
                box = ctypes.create_string_buffer(2 * (size + 1024) + 64)
                s0 = ctypes.addressof(box)
                s0 += -s0 % 64
                d0 = s0 + size + 1024
                d0 += -d0 % 64
                fresh = (pattern(997, (k * 7 + size) % 1000) * (size // 997 + 1))[:size]
                ctypes.memmove(s0 + sp, fresh, size)
                ctypes.memset(d0, 0x5A, size + 512)
                RESULT[0] = s0 + sp
                r = u.call(FPTR, d0 + dp, size)
                expect_calls = 1
                got = ctypes.string_at(d0, size + 512)
                want = b"\x5a" * dp + fresh + b"\x5a" * (512 - dp)
                if r is not None or got != want:
                    raise Violation("%s: %s" % (what, diff(got, want)))
                if ctypes.string_at(s0 + sp, size) != fresh:
                    raise Violation("%s changed its source" % what)
                box = None
            elif name == "badcall":
                bad = [lambda: u.callVoid(), lambda: u.callVoid(FVOID, 1), lambda: u.callVoid("x"), lambda: u.callInt(), lambda: u.callInt(None),
                       lambda: u.callLongLong(1.5), lambda: u.callLongLong(F64, F64), lambda: u.call(F64), lambda: u.call(F64, dst),
                       lambda: u.call("x", dst, 8), lambda: u.call(F64, "x", 8), lambda: u.call(F64, dst, -1)]
                try:
                    bad[op[1] % len(bad)]()
                except SystemError as e:
                    raise Violation("%s raised %r" % (what, e))
                except Exception:
                    pass
                else:
                    raise Violation("%s was accepted" % what)
            elif name in ("address", "object", "keep", "incref", "decref", "refcnt"):
                i = op[1] % NOBJ
                if name == "address":
                    r = u.get_address(objs[i])
                    if type(r) is not int or r != id(objs[i]):
                        raise Violation("%s gave %r, the object is at %r" % (what, r, id(objs[i])))
                elif name == "object":
                    for _ in range(min(op[2], 50)):
                        r = u.as_object(u.get_address(objs[i]))
                        if r is not objs[i]:
                            raise Violation("%s gave another object" % what)
                    r = None
                elif name == "keep":
                    kept.append((i, u.as_object(id(objs[i]))))
                elif name == "incref":
                    for _ in range(max(0, min(op[2], 50))):
                        r = u.incref(objs[i])
                        if r is not None:
                            raise Violation("%s returned %r" % (what, r))
                        extra[i] += 1
                elif name == "decref":
                    if extra[i]:
                        r = u.decref(objs[i])
                        if r is not None:
                            raise Violation("%s returned %r" % (what, r))
                        extra[i] -= 1
                else:
                    a, b = u.refcnt(objs[i]), sys.getrefcount(objs[i])
                    if a != b:
                        raise Violation("%s gave %r, the count is %r" % (what, a, b))
                r = None
            elif name == "unkeep":
                kept.clear()
            elif name == "outlive":
                o = (Obj, Plain, Obj, Plain)[op[1] % 4](*([5] if op[1] % 2 == 0 else []))
                w = weakref.ref(o)
                a = u.get_address(o)
                u.incref(o)
                del o
                if w() is None:
                    raise Violation("%s: the object died although it was increfed" % what)
                o = u.as_object(a)
                if o is not w():
                    raise Violation("%s: as_object gave another object" % what)
                u.decref(o)
                if w() is not o:
                    raise Violation("%s: the object died although it is in use" % what)
                del o
                if w() is not None:
                    raise Violation("%s: the object survives its last reference" % what)
            elif name == "badobj":
                bad = [lambda: u.as_object(0), lambda: u.as_object("x"), lambda: u.as_object(None), lambda: u.as_object(2**65)]
                try:
                    bad[op[1] % 4]()
                except SystemError as e:
                    raise Violation("%s raised %r" % (what, e))
                except Exception:
                    pass
                else:
                    raise Violation("%s was accepted" % what)
            elif name == "immortal":
                o = (None, True, 5, "", ())[op[1] % 5]
                u.incref(o)
                if u.as_object(u.get_address(o)) is not o:
                    raise Violation("%s: another object" % what)
                u.decref(o)
            else:
                raise Invalid("op")
            ctx.label("op:" + name)
            if CALLS[0] != expect_calls:
                raise Violation("%s: the function was called %d times instead of %d" % (what, CALLS[0], expect_calls))
            calls += expect_calls
            real = ctypes.string_at(a0, 2 * N)
            if real != content:
                raise Violation("%s: memory is wrong (the result goes to offset %d + %d): %s" % (what, N, op[-1], diff(real, content)))
            now = [sys.getrefcount(x) for x in objs]
            want = [b + e + sum(1 for j, _ in kept if j == i) for i, (b, e) in enumerate(zip(base, extra))]
            if now != want:
                raise Violation("%s: reference counts are %s, expected %s" % (what, now, want))
        for i in range(NOBJ):
            for _ in range(extra[i]):
                u.decref(objs[i])
        kept.clear()
        now = [sys.getrefcount(x) for x in objs]
        if now != base:
            raise Violation("at the end: reference counts are %s, expected %s" % (now, base))
        refs = [weakref.ref(x) for x in objs[:3]]
        objs = x = None
        if any(r() is not None for r in refs):
            raise Violation("an object survives its last reference")
        ctx.nt(calls > 0 or len(case["ops"]) > 2)

    def i64(self, v):
        if not -2**63 <= v < 2**63:
            raise Invalid("int64")
        return v

    def same_int(self, what, r, v):
        if type(r) is not int or r != v or r + 1 != v + 1 or hash(r) != hash(v) or str(r) != str(v):
            raise Violation("%s gave %r, the function returned %r" % (what, r, v))


CHECK = C16()
