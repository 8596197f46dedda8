"""C18: SIMD vector setters store every lane."""
import ctypes
import hashlib

from hypothesis import strategies as st

from pbt import gen
from pbt.checks.c15 import diff
from pbt.cont import IntSub
from pbt.engine import Invalid, Violation
from pyfastutil.unsafe import SIMD

# name: (bytes per lane, lanes)
SETTERS = {"setAVX512Vector32": (4, 16), "setAVX512Vector16": (2, 32), "setAVX512Vector8": (1, 64),
           "setAVX2Vector32": (4, 8), "setAVX2Vector16": (2, 16), "setAVX2Vector8": (1, 32)}
NAMES = tuple(SETTERS)
SIZE = 1024
BASE = hashlib.shake_128(b"c18").digest(SIZE + 1000)
BUF = ctypes.create_string_buffer(SIZE + 64)
A0 = ctypes.addressof(BUF)
A0 += -A0 % 64
BAD = ("x", None, 1.5, b"1", [1], 2**64, -2**64, 2**100, 2**63)


@gen.cached
def lanes(size, n):
    lo, hi = -2**(8 * size - 1), 2**(8 * size - 1) - 1
    v = st.one_of(st.integers(lo, hi), st.integers(-3, 3), gen.sampled((lo, lo + 1, hi, hi - 1, -1, 0, 1, lo // 2, hi // 2, hi // 2 + 1, -128, 127)))
    return st.lists(v, min_size=n, max_size=n)


@gen.cached
def calls(name):
    size, n = SETTERS[name]
    good = st.tuples(st.just("ok"), st.integers(0, 15), lanes(size, n)).map(list)
    return st.one_of(good, good, good,
                     st.tuples(st.just("value"), st.integers(0, 15), lanes(size, n), st.integers(0, n - 1), st.integers(0, len(BAD) - 1)).map(list),
                     st.tuples(st.just("count"), st.integers(0, 15), lanes(size, n), st.sampled_from([-1, 1, 2, -2, -3, n, -n])).map(list),
                     st.tuples(st.just("ptr"), st.integers(0, 15), lanes(size, n), st.integers(0, 3)).map(list))


@st.composite
def cases(draw):
    name = draw(gen.sampled(NAMES))
    return {"f": name, "calls": draw(st.lists(calls(name), min_size=1, max_size=4))}


class C18:
    id = "C18"

    def strategy(self, tier):
        return cases()

    def enumerated(self, tier):
        for name in NAMES:
            size, n = SETTERS[name]
            lo, hi = -2**(8 * size - 1), 2**(8 * size - 1) - 1
            for i in range(n):
                for v in (1, -1, hi, lo, hi // 3, -hi // 3):
                    one = [0] * n
                    one[i] = v
                    yield {"f": name, "calls": [["ok", i % 16, one], ["ok", 3, [-1 - v if k != i else v for k in range(n)] if v < 0 else one]]}
                for b in range(len(BAD)):
                    yield {"f": name, "calls": [["value", i % 16, list(range(n)), i, b]]}
            for d in range(-n, 4):
                if d:
                    yield {"f": name, "calls": [["count", 0, list(range(n)), d]]}
            if size == 1:
                for v in range(-128, 128):
                    yield {"f": name, "calls": [["ok", v % 16, [(v + k + 128) % 256 - 128 for k in range(n)]]]}
            elif size == 2:
                for v in range(-2**15, 2**15, 512 if tier == "quick" else n):
                    yield {"f": name, "calls": [["ok", v % 16, [(v + k + 2**15) % 2**16 - 2**15 for k in range(n)]]]}

    def run(self, case, ctx):
        u = SIMD()
        name = case["f"]
        size, n = SETTERS[name]
        f = getattr(u, name)
        lo, hi = -2**(8 * size - 1), 2**(8 * size - 1) - 1
        step = size * n
        content = bytearray(BASE[:SIZE])
        ctypes.memmove(A0, bytes(content), SIZE)
        good = 0
        for c in case["calls"]:
            kind, slot, vals = c[:3]
            if len(vals) != n or not all(isinstance(v, int) and lo <= v <= hi for v in vals) or not 0 <= slot < 16:
                raise Invalid("values")
            off = 64 + slot * step % (SIZE - 192) // step * step
            what = "%s(base+%d, ...) %s" % (name, off, c)
            if kind == "ok":
                if slot % 5 == 4:
                    r = f(A0 + off, *[IntSub(v) for v in vals])
                else:
                    r = f(A0 + off, *vals)
                if r is not None:
                    raise Violation("%s returned %r" % (what, r))
                content[off:off + step] = b"".join(v.to_bytes(size, "little", signed=True) for v in reversed(vals))
                good += 1
            else:
                args = [A0 + off] + list(vals)
                if kind == "value":
                    args[1 + c[3] % n] = BAD[c[4] % len(BAD)]
                elif kind == "count":
                    d = c[3]
                    if d == 0 or abs(d) > n:
                        raise Invalid("count")
                    args = args[:d] if d < 0 else args + [1] * d
                elif kind == "ptr":
                    args[0] = ("x", None, 1.5, 2**65)[c[3] % 4]
                else:
                    raise Invalid("kind")
                try:
                    f(*args)
                except SystemError as e:
                    raise Violation("%s raised %r" % (what, e))
                except Exception as e:
                    if kind == "count" and not isinstance(e, TypeError):
                        raise Violation("%s raised %r" % (what, e))
                else:
                    raise Violation("%s: the wrong call was accepted" % what)
            real = ctypes.string_at(A0, SIZE)
            if real != content:
                raise Violation("%s: %s" % (what, diff(real, content)))
            ctx.label("%s:%s" % (name, kind))
        ctx.nt(good > 0)


CHECK = C18()
