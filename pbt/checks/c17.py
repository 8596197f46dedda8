"""C17: SIMD copy and reverse are exact for every type and length."""
import ctypes
import hashlib
import random
from array import array

from hypothesis import strategies as st

from pbt import gen
from pbt.checks.c15 import diff
from pbt.engine import Invalid, Violation
from pyfastutil.unsafe import SIMD

TYPES = {"Int": 4, "UnsignedInt": 4, "Long": 8, "UnsignedLong": 8, "LongLong": 8, "UnsignedLongLong": 8, "Short": 2, "UnsignedShort": 2,
         "Float": 4, "Double": 8, "LongDouble": 16, "Char": 1, "UnsignedChar": 1, "WChar": 4, "Char16": 2, "Char32": 4, "Bool": 1, "Int8": 1,
         "UInt8": 1, "Int16": 2, "UInt16": 2, "Int32": 4, "UInt32": 4, "Int64": 8, "UInt64": 8, "VoidPtr": 8, "IntPtr": 8, "FloatPtr": 8,
         "PyObjectPtr": 8}
NAMES = tuple(TYPES)
FNS = ("memcpy", "memcpyAligned", "reverse")
HALF = 1 << 16
GUARD = 256
BASE = hashlib.shake_128(b"c17").digest(3 * HALF)
BOOLS = bytes(b & 1 for b in BASE)
BUF = ctypes.create_string_buffer(2 * HALF + 64)
A0 = ctypes.addressof(BUF)
A0 += -A0 % 64

LOWEST = bytes(b & 1 for b in range(256))
CODES = {1: "B", 2: "H", 4: "I", 8: "Q"}

COUNTS = st.one_of(st.integers(0, 40), st.integers(0, 160), st.integers(0, 700), st.integers(0, 4000),
                   st.builds(lambda a, b: max(0, a + b), st.sampled_from([8, 16, 32, 64, 96, 128, 192, 256, 320, 512, 1024, 2048]), st.integers(-3, 3)))
# offsets in elements
OFFS = st.one_of(st.just(0), st.integers(0, 70), st.integers(0, 15))


@gen.cached
def calls():
    return st.lists(st.tuples(COUNTS, OFFS, OFFS, st.integers(0, 999)).map(list), min_size=1, max_size=8)


class C17:
    id = "C17"

    def strategy(self, tier):
        usual = st.fixed_dictionaries({"t": st.sampled_from(NAMES), "f": st.sampled_from(FNS + FNS + ("reverse", "bad")), "calls": calls()})
        large = st.fixed_dictionaries({"t": st.sampled_from(NAMES), "f": st.sampled_from(FNS + ("reverse",)), "large": st.tuples(
            st.one_of(st.integers(0, 200000), st.integers(0, 2000000)), OFFS, OFFS, st.integers(0, 999)).map(list)})
        return gen.ONE_IN_FORTY.flatmap(lambda k: usual if k < 39 else large)

    def enumerated(self, tier):
        for t in NAMES:
            size = TYPES[t]
            # all tails of all vector widths, and beyond the largest unrolled block
            top = (5 if tier == "quick" else 20) * max(64 // size, 4) + 8
            for f in FNS:
                for lo in range(0, top, 16):
                    yield {"t": t, "f": f, "calls": [[n, (n * 7 + 1) % 11, (n * 5 + 3) % 13, n] for n in range(lo, min(lo + 16, top))]}
                    if f != "memcpyAligned":
                        yield {"t": t, "f": f, "calls": [[n, 0, 0, n + 100] for n in range(lo, min(lo + 16, top))]}
                for off in range(0, 64, 4 if tier == "quick" else 1):
                    yield {"t": t, "f": f, "calls": [[n, off, 63 - off, off] for n in (1, 9, 17, 33, 64, 65, 130)]}
                yield {"t": t, "f": f, "calls": [[n, 1, 2, 7] for n in (1000, 1023, 1024, 1025, 3000)]}
                for b in (1 << 16, 1 << 17, 1 << 18, 1 << 19, 1 << 20) if tier == "quick" else (1 << 16, 1 << 18, 1 << 19, 1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 25):
                    for d in (0, 1, -1, 37):
                        yield {"t": t, "f": f, "large": [b // size + d, (b >> 16) % 7 + d * d % 5, (3 * d) % 11, b + d]}
                if t in ("Int", "Char", "Short", "Long", "LongDouble", "Double", "Bool"):
                    yield {"t": t, "f": f, "large": [(5 << 20) // size + 3, 1, 2, 5]}
                    yield {"t": t, "f": f, "large": [(40 << 20) // size + 3, 2, 1, 6]}
            yield {"t": t, "f": "bad", "calls": [[n, 0, 0, n] for n in range(12)]}

    def large(self, u, t, f, n, so, do, seed, ctx):
        """The same for buffers of up to 40 MB."""
        size = TYPES[t]
        so, do = so * size, do * size
        if f == "memcpyAligned":
            so, do = so // 64 * 64, do // 64 * 64
        what = "%s%s of %d elements from +%d to +%d" % (f, t, n, so, do)
        total = n * size + 2 * GUARD + 71 * size
        rnd = random.Random(seed)
        bufs, addrs = [], []
        for i in range(2):
            b = ctypes.create_string_buffer(total + 64)
            data = rnd.randbytes(total)
            if t == "Bool":
                data = data.translate(LOWEST)
            a = ctypes.addressof(b)
            a += -a % 64
            ctypes.memmove(a, data, total)
            bufs.append((b, data))
            addrs.append(a)
        want = [bytearray(d) for b, d in bufs]
        src, dst = GUARD + so, GUARD + do
        if f == "reverse":
            getattr(u, "reverse" + t)(addrs[1] + dst, n)
            a = array(CODES[min(size, 8)], want[1][dst:dst + n * size])
            if size == 16:
                out = array("Q", bytes(n * size))
                out[0::2], out[1::2] = a[-2::-2], a[-1::-2]
            else:
                out = a[::-1]
            want[1][dst:dst + n * size] = out.tobytes()
        else:
            getattr(u, "memcpy" + t + ("Aligned" if f == "memcpyAligned" else ""))(addrs[0] + src, addrs[1] + dst, n)
            want[1][dst:dst + n * size] = want[0][src:src + n * size]
        for i in range(2):
            real = bytearray(ctypes.string_at(addrs[i], total))
            if t == "LongDouble" and i == 1:
                for x in (real, want[1]):
                    a = array("H", x[dst:dst + n * size])
                    for k in (5, 6, 7):
                        a[k::8] = array("H", bytes(2 * n))
                    x[dst:dst + n * size] = a.tobytes()
            if real != want[i]:
                raise Violation("%s (%s at %d): %s" % (what, "source" if i == 0 else "destination", src if i == 0 else dst, diff(real, want[i])))
        ctx.label("large:" + f)

    def run(self, case, ctx):
        t, f = case["t"], case["f"]
        size = TYPES[t]
        u = SIMD()
        if "large" in case:
            n, so, do, seed = case["large"]
            if f not in ("memcpy", "memcpyAligned", "reverse") or not (0 <= n * size <= 48 << 20 and 0 <= so <= 70 and 0 <= do <= 70):
                raise Invalid("large")
            self.large(u, t, f, n, so, do, seed, ctx)
            ctx.nt()
            return
        source = BOOLS if t == "Bool" else BASE
        done = False
        for c in case["calls"]:
            n, so, do, seed = c
            if not (0 <= n * size <= HALF - 2 * GUARD - 80 * size and 0 <= so <= 70 and 0 <= do <= 70 and 0 <= seed < 1000):
                continue
            so, do = so * size, do * size
            if f == "memcpyAligned":
                so, do = so // 64 * 64, do // 64 * 64
            what = "%s%s of %d elements from +%d to +%d" % (f, t, n, so, do)
            # only the part around the call is compared
            span = 2 * GUARD + n * size + 71 * size
            span += -span % 64
            init = bytearray(source[seed * 64:seed * 64 + 2 * span])
            ctypes.memmove(A0, bytes(init), 2 * span)
            src, dst = GUARD + so, span + GUARD + do
            if f == "bad":
                if self.bad(u, t, n % 12, A0 + src, A0 + dst):
                    raise Violation("%s: wrong call %d was accepted" % (what, n % 12))
            elif f == "reverse":
                if getattr(u, "reverse" + t)(A0 + dst, n) is not None:
                    raise Violation("%s returned something" % what)
                seg = init[dst:dst + n * size]
                out = bytearray()
                for i in range(n - 1, -1, -1):
                    out += seg[i * size:(i + 1) * size]
                init[dst:dst + n * size] = out
            elif f in ("memcpy", "memcpyAligned"):
                name = "memcpy" + t + ("Aligned" if f == "memcpyAligned" else "")
                if getattr(u, name)(A0 + src, A0 + dst, n) is not None:
                    raise Violation("%s returned something" % what)
                init[dst:dst + n * size] = init[src:src + n * size]
            else:
                raise Invalid("f")
            real = bytearray(ctypes.string_at(A0, 2 * span))
            if t == "LongDouble":
                # the last six bytes of an element are padding
                for i in range(n):
                    p = dst + 16 * i + 10
                    real[p:p + 6] = init[p:p + 6] = b"\0\0\0\0\0\0"
            if real != init:
                raise Violation("%s (source at %d, destination at %d): %s" % (what, src, dst, diff(real, init)))
            ctx.label("%s:%d" % (f, size))
            done = done or n > 1
        ctx.nt(done and f != "bad")

    def bad(self, u, t, k, a, b):
        f = getattr(u, "memcpy" + t)
        g = getattr(u, "memcpy" + t + "Aligned")
        h = getattr(u, "reverse" + t)
        calls = [lambda: f(), lambda: f(a, b), lambda: f(a, b, 1, 1), lambda: f("x", b, 2), lambda: f(a, None, 2), lambda: f(a, b, "x"),
                 lambda: f(a, b, -1), lambda: g(a, b), lambda: g(a, "x", 2), lambda: h(a), lambda: h(a, -1), lambda: h("x", 3)]
        try:
            calls[k]()
        except SystemError as e:
            raise Violation("wrong call %d of %s raised %r" % (k, t, e))
        except Exception:
            return False
        return True


CHECK = C17()
