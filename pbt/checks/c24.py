"""C24: results do not depend on the processor's vector features, which are reported as they are.

This module must not import the library: each case runs in a forked child that sets the masks (native/cpuid_mask.h) and
then imports it for the first time."""
import os
import pickle
import random
import signal
import traceback

from hypothesis import strategies as st

from pbt import gen
from pbt.engine import Ctx, Invalid, Violation

ALL = (1 << 64) - 1
ECX = {"ssse3": 9, "fma": 12, "sse4_1": 19, "sse4_2": 20, "popcnt": 23, "osxsave": 27, "avx": 28}
EBX = {"bmi1": 3, "avx2": 5, "bmi2": 8, "avx512f": 16, "avx512dq": 17, "avx512bw": 30, "avx512vl": 31}
XCR = {"xmm": 1, "ymm": 2, "opmask": 5, "zmm_hi": 6, "hi16_zmm": 7}
BITS = tuple([("e", n) for n in ECX] + [("b", n) for n in EBX] + [("x", n) for n in XCR])
NAMES = ("Int", "UnsignedInt", "Long", "UnsignedLong", "LongLong", "UnsignedLongLong", "Short", "UnsignedShort", "Float", "Double", "LongDouble",
         "Char", "UnsignedChar", "WChar", "Char16", "Char32", "Bool", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64",
         "VoidPtr", "IntPtr", "FloatPtr", "PyObjectPtr")
CLASSES = ("IntArrayList", "BigIntArrayList", "IntLinkedList", "ObjectArrayList", "ObjectLinkedList")
OPS = ("reverse", "sort", "rsort", "copy", "double", "slice", "rslice", "append", "insert", "pop", "concat", "keysort", "search", "back", "compare", "extend")
# the usual processors: what is cleared
LEVELS = {
    "avx512": [], "avx2": ["bavx512f", "bavx512dq", "bavx512bw", "bavx512vl"],
    "avx2 by the system": ["xopmask", "xzmm_hi", "xhi16_zmm"],
    "avx": ["bavx512f", "bavx512dq", "bavx512bw", "bavx512vl", "bavx2", "efma"],
    "sse4.1": ["bavx512f", "bavx512dq", "bavx512bw", "bavx512vl", "bavx2", "efma", "eavx"],
    "sse4.1 by the system": ["eosxsave"], "sse4.1 by xcr0": ["xymm"],
    "ssse3": ["bavx512f", "bavx2", "eavx", "esse4_1", "esse4_2", "eosxsave"],
    "none": ["bavx512f", "bavx2", "eavx", "esse4_1", "esse4_2", "essse3", "eosxsave"],
}
COUNTS = st.one_of(st.integers(0, 40), st.integers(0, 160), st.integers(0, 700),
                   st.builds(lambda a, b: max(0, a + b), st.sampled_from([8, 16, 32, 64, 96, 128, 192, 256, 320, 512, 1024, 2048]), st.integers(-3, 3)))


def real():
    """Features as the kernel reports them: the three registers, as far as they matter."""
    flags = set()
    with open("/proc/cpuinfo") as f:
        for line in f:
            if line.startswith("flags"):
                flags = set(line.split(":", 1)[1].split())
                break
    e = sum(1 << b for n, b in ECX.items() if ("xsave" if n == "osxsave" else n) in flags)
    b = sum(1 << b for n, b in EBX.items() if n in flags)
    x = 0
    if "avx" in flags:
        x |= 6
    if "avx512f" in flags:
        x |= 0xE0
    return e, b, x


def bit(r, k):
    return bool(r >> k & 1)


def expected(e, b, x):
    """Name -> the values that are right."""
    system = bit(e, 27) and x & 6 == 6
    avx2 = system and bit(e, 28) and bit(b, 5)
    wide = system and bit(e, 28) and bit(b, 16) and x & 0xE0 == 0xE0
    # a library that uses more than the foundation may ask for more
    all512 = wide and bit(b, 5) and bit(b, 17) and bit(b, 30) and bit(b, 31)
    return {"isSSE41Supported": {bit(e, 19)}, "isSSSE3Supported": {bit(e, 9)}, "isAVX2Supported": {avx2},
            "isAVX512Supported": {wide, all512}, "isArmNeonSupported": {False}}


@gen.cached
def clears():
    names = [k + n for k, n in BITS]
    return st.one_of(st.lists(st.sampled_from(names), max_size=5, unique=True), st.sampled_from(list(LEVELS.values())),
                     st.sampled_from(names).map(lambda n: [n]))


@gen.cached
def offsets():
    return st.one_of(st.just(0), st.integers(0, 70), st.integers(0, 15))


@st.composite
def cases(draw):
    jobs = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.booleans()):
            jobs.append(["simd", draw(st.sampled_from(NAMES)), draw(st.sampled_from(("memcpy", "memcpyAligned", "reverse"))),
                         draw(st.lists(st.tuples(COUNTS, offsets(), offsets(), st.integers(0, 999)).map(list), min_size=1, max_size=4))])
        else:
            jobs.append(["list", draw(st.sampled_from(CLASSES)), draw(COUNTS), draw(st.integers(0, 999)), draw(st.integers(0, 3)),
                         draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=6))])
    return {"clear": sorted(draw(clears())), "jobs": jobs}


class C24:
    id = "C24"
    per_round = 200

    def strategy(self, tier):
        return cases()

    def enumerated(self, tier):
        e = ("essse3", "esse4_1", "eosxsave", "eavx")
        other = [[], ["bavx2"], ["bavx512f"], ["bavx2", "bavx512f"]] + [["x" + n] for n in XCR] + [["bavx512bw"], ["xopmask", "xzmm_hi", "xhi16_zmm"]]
        for m in range(16):
            for o in other:
                yield {"clear": sorted([n for i, n in enumerate(e) if m >> i & 1] + o), "jobs": []}
        for level, clear in LEVELS.items():
            for t in NAMES:
                yield {"clear": sorted(clear), "jobs": [["simd", t, f, [[n, (n * 7 + 1) % 11, (n * 5 + 3) % 13, n] for n in range(lo, 150, 5)]]
                                                        for f in ("memcpy", "memcpyAligned", "reverse") for lo in range(5)]}
            for c in CLASSES:
                for n in (7, 8, 33, 64, 65, 130, 5001):
                    yield {"clear": sorted(clear), "jobs": [["list", c, n, n, k, ["reverse", "copy", op, "reverse"]] for k in range(4) for op in OPS]}

    def run(self, case, ctx):
        clear = case["clear"]
        mask = {"e": ALL, "b": ALL, "x": ALL}
        for c in clear:
            table = {"e": ECX, "b": EBX, "x": XCR}.get(c[:1])
            if table is None or c[1:] not in table:
                raise Invalid("clear")
            mask[c[0]] &= ~(1 << table[c[1:]])
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = ("error in the child", {})
            try:
                os.close(r)
                signal.alarm(100)
                for name, k in (("PFU_ECX1", "e"), ("PFU_EBX7", "b"), ("PFU_XCR0", "x")):
                    os.environ[name] = str(mask[k] & ALL)
                labels = {}
                try:
                    self.child(case, mask, labels)
                    out = (None, labels)
                except Violation as v:
                    out = (str(v), labels)
                except Invalid:
                    out = ("INVALID", labels)
                except BaseException:
                    out = ("unexpected: " + traceback.format_exc()[-1500:], labels)
                os.write(w, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        got = b""
        while True:
            piece = os.read(r, 65536)
            if not piece:
                break
            got += piece
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if not got:
            raise Violation("without %s the process died with status %#x" % (", ".join(clear) or "anything missing", status))
        msg, labels = pickle.loads(got)
        if msg == "INVALID":
            raise Invalid("job")
        if msg:
            raise Violation("without %s: %s" % (", ".join(clear) or "anything missing", msg))
        for k, n in labels.items():
            ctx.label(k, n)
        ctx.nt(bool(clear))

    def child(self, case, mask, labels):
        import ctypes

        import pyfastutil.unsafe as U
        seen = 0
        try:
            lib = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(U.__file__)), "__pyfastutil.so"))
            seen = ctypes.c_uint.in_dll(lib, "pfu_seen").value
        except (OSError, ValueError):
            pass
        s = U.SIMD()
        e, b, x = real()
        plain = expected(e, b, x)
        want = expected(e & mask["e"], b & mask["b"], x & mask["x"])
        for name, ok in want.items():
            got = getattr(s, name)()
            if got is not True and got is not False:
                raise Violation("%s() returned %r" % (name, got))
            if seen & 7 != 7:
                # not everything is asked for in a way that can be masked
                ok = ok | plain[name]
            if got not in ok:
                raise Violation("%s() is %r, not %r" % (name, got, sorted(ok)))
            if getattr(s, name)() is not got:
                raise Violation("%s() changes" % name)
            labels["%s %s" % (name, got)] = 1
        labels["masked"] = int(seen & 7 == 7)
        for job in case["jobs"]:
            if job[0] == "simd":
                from pbt.checks.c17 import C17
                C17().run({"t": job[1], "f": job[2], "calls": job[3]}, Ctx())
                labels["simd"] = labels.get("simd", 0) + 1
            elif job[0] == "list":
                self.lists(*job[1:])
                labels["list"] = labels.get("list", 0) + 1
            else:
                raise Invalid("job")

    @staticmethod
    def lists(cls, n, seed, spread, ops):
        import pyfastutil.ints as I
        import pyfastutil.objects as O
        if not 0 <= n <= 6000:
            raise Invalid("n")
        C = getattr(I, cls, None) or getattr(O, cls)
        rnd = random.Random("%s %s" % (seed, spread))
        big = 1 << (63 if cls == "BigIntArrayList" else 31)
        limit = {0: 2, 1: 200, 2: 2**31, 3: big}[spread]
        m = [rnd.randrange(-limit, limit) for _ in range(n)]
        x = C(m)
        for op in ops:
            if op == "reverse":
                x.reverse()
                m.reverse()
            elif op == "sort":
                x.sort()
                m.sort()
            elif op == "rsort":
                x.sort(reverse=True)
                m.sort(reverse=True)
            elif op == "keysort":
                x.sort(key=lambda v: v % 17)
                m.sort(key=lambda v: v % 17)
            elif op == "copy":
                y = x.copy()
                x.append(5)
                x = y
            elif op == "double":
                if len(m) < 3000:
                    x = C(x * 2)
                    m = m * 2
            elif op == "slice":
                x = C(x[3:-2])
                m = m[3:-2]
            elif op == "rslice":
                x = C(x[::-1])
                m = m[::-1]
            elif op == "append":
                x.append(-7)
                m.append(-7)
            elif op == "insert":
                x.insert(len(m) // 3, 9)
                m.insert(len(m) // 3, 9)
            elif op == "pop":
                if m:
                    k = len(m) // 2
                    if x.pop(k) != m.pop(k):
                        raise Violation("pop(%d)" % k)
            elif op == "concat":
                if len(m) < 3000:
                    x = C(x + x)
                    m = m + m
            elif op == "extend":
                if len(m) < 3000:
                    x.extend(x)
                    m.extend(m)
            elif op == "search":
                for v in m[:3] + m[-3:] + [12345]:
                    if (v in x) != (v in m) or x.count(v) != m.count(v) or v in m and x.index(v) != m.index(v):
                        raise Violation("%s of %d elements: searching for %r" % (cls, len(m), v))
            elif op == "back":
                if list(reversed(x)) != m[::-1]:
                    raise Violation("%s of %d elements: reversed" % (cls, len(m)))
            elif op == "compare":
                if not (x == m and x == C(m) and not x != m and not x < m):
                    raise Violation("%s of %d elements: comparison" % (cls, len(m)))
            else:
                raise Invalid("op")
            if x.to_list() != m:
                raise Violation("%s of %d elements, seed %d %d: after %s in %s the content is wrong" % (cls, n, seed, spread, op, ops))


CHECK = C24()
