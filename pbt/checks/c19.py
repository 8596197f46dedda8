"""C19: AVX-512 bindings equal the intrinsics they name.

Every call is made twice, on two arenas with the same content: by the method
under test, and by a C function that calls the intrinsic directly.  Both
arenas have to be equal afterwards, byte for byte."""
import ctypes
import functools
import hashlib
import random
import re
import struct

from hypothesis import strategies as st

from pbt import gen, oracle19
from pbt.checks.c15 import diff
from pbt.engine import Invalid, Violation
from pyfastutil.unsafe import SIMDLowAVX512

TABLE = oracle19.table()
BOUND = TABLE["bound"]
NI = TABLE["unsupported"]
INDEX = {b[0]: i for i, b in enumerate(BOUND)}
NINDEX = {b[0]: b[1] for b in NI}
NAMES = tuple(INDEX)
NINAMES = tuple(NINDEX)
with open("/proc/cpuinfo") as _f:
    _flags = set(re.search(r"^flags\s*:(.*)$", _f.read(), re.M).group(1).split())
CPU = {"avx512f", "avx512bw", "avx512dq", "avx512vl"} <= _flags
ORACLE = oracle19.load() if CPU else None

SLOT = 256
SLOTS = 8
SIZE = SLOT * SLOTS
BASE = hashlib.shake_128(b"c19").digest(SIZE)


def arena():
    b = ctypes.create_string_buffer(SIZE + 64)
    a = ctypes.addressof(b)
    return b, a + -a % 64


BUF1, A1 = arena()
BUF2, A2 = arena()
CELLS = (ctypes.c_uint64 * 8)()
CELL0 = ctypes.addressof(CELLS)
SCAL = (ctypes.c_uint64 * 80)()
PTRS = (ctypes.c_void_p * 80)()

INTS = {"char": (8, True), "short": (16, True), "int": (32, True), "longlong": (64, True), "unsigned": (32, False),
        "unsigned int": (32, False), "unsignedlonglong": (64, False)}
VEC = {"__m512i": 64, "__m512": 64, "__m512d": 64, "__m256i": 32, "__m256": 32, "__m256d": 32, "__m128i": 16, "__m128": 16,
       "__m128d": 16, "__mmask8": 1, "__mmask16": 2}
SIZES = dict(VEC, **{"int": 4, "longlong": 8, "unsigned": 4, "unsigned int": 4, "unsignedlonglong": 8, "float": 4, "double": 8,
                     "unsignedchar": 1})
F32 = (0.0, -0.0, 1.0, -1.0, 1.5, -2.5, 0.5, 2.0, 3.0, 1e-40, -1e-45, 3.4e38, -3.4e38, float("inf"), float("-inf"), float("nan"),
       2147483648.0, -2147483648.0, 4294967296.0, 127.5, -0.75, 1e10, 16777217.0)
F64 = F32 + (1e308, -1e308, 5e-324, 9.3e18, 1.9e19, -9.3e18, 2147483647.5, 4294967295.5, 0.1)
LOOSE = re.compile(r"_(add|mul|f[nm]\w*|reduce)_")


def body_of(name):
    """How many leading bytes of the result are defined."""
    if "undefined" in name:
        return 0
    m = re.match(r"_mm512_cast\w+?(128|256)_\w+512$", name)
    return int(m.group(1)) // 8 if m else 64


@functools.lru_cache(4096)
def content(style, seed, like=b""):
    """64 bytes: lanes of some width and flavour."""
    rnd = random.Random(seed * 31 + style)
    if style == 0:
        return rnd.randbytes(64)
    if style == 1:
        return bytes(64)
    if style == 2:
        return b"\xff" * 64
    if style in (3, 4, 5, 6):
        w = {3: 4, 4: 8, 5: 2, 6: 1}[style]
        top = 1 << (8 * w - 1)
        pool = (0, 1, 2 * top - 1, top, top - 1, top + 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2, 3)
        return b"".join((rnd.choice(pool) % (2 * top) if rnd.random() < .7 else rnd.getrandbits(8 * w)).to_bytes(w, "little") for _ in range(64 // w))
    if style == 7:
        return struct.pack("<16f", *[rnd.choice(F32) if rnd.random() < .5 else rnd.uniform(-100, 100) for _ in range(16)])
    if style == 8:
        return struct.pack("<8d", *[rnd.choice(F64) if rnd.random() < .5 else rnd.uniform(-100, 100) for _ in range(8)])
    if style == 9:
        return struct.pack("<16f", *[rnd.uniform(-10, 10) for _ in range(16)])
    if style == 10:
        return struct.pack("<8d", *[rnd.uniform(-10, 10) for _ in range(8)])
    if style == 11:
        return struct.pack("<16i", *[rnd.randrange(70) for _ in range(16)])
    if style == 12:
        return struct.pack("<8q", *[rnd.randrange(70) for _ in range(8)])
    if style == 13:      # lanes of the previous operand, some changed
        out = bytearray(like or rnd.randbytes(64))
        for _ in range(rnd.randrange(4)):
            k = rnd.randrange(16) * 4
            out[k:k + 4] = ((int.from_bytes(out[k:k + 4], "little") + rnd.choice((1, -1, 1 << 31))) % 2**32).to_bytes(4, "little")
        return bytes(out)
    if style == 14:      # few bits: distinguishes lanes and masks
        return struct.pack("<16I", *[1 << rnd.randrange(32) for _ in range(16)])
    raise Invalid("style")


STYLES = 15


def scalar(t, style, seed):
    rnd = random.Random(seed * 17 + style)
    if t in ("float", "double"):
        if style % 3 == 0:
            return rnd.randrange(-1000, 1000)
        if style % 3 == 1:
            return rnd.choice(F32 if t == "float" else F64)
        return rnd.uniform(-1e3, 1e3)
    bits, signed = INTS[t]
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if style % 2:
        return rnd.randint(lo, hi)
    return rnd.choice((lo, lo + 1, hi, hi - 1, 0, 1, max(-1, lo), hi // 2, hi // 2 + 1, 5))


@gen.cached
def args_of(n):
    return st.lists(st.tuples(st.integers(0, STYLES - 1), st.integers(0, 2**24), st.integers(0, 63)).map(list), min_size=n, max_size=n)


@st.composite
def cases(draw):
    k = draw(gen.sampled((0,) * 12 + (1, 2)))
    if k == 1:
        name = draw(gen.sampled(NAMES))
        return {"f": name, "kind": "nargs", "n": draw(st.integers(0, 70))}
    if k == 2:
        name = draw(gen.sampled(NINAMES))
        return {"f": name, "kind": "ni", "n": draw(st.integers(0, 8))}
    name = draw(gen.sampled(NAMES))
    params = BOUND[INDEX[name]][2]
    return {"f": name, "kind": "ok", "args": draw(args_of(len(params))), "res": draw(gen.sampled((-1, -1, -1, 0, 1, 2, 3)))}


class C19:
    id = "C19"
    per_round = 2000

    def strategy(self, tier):
        return cases()

    def enumerated(self, tier):
        for i, (name, ret, params) in enumerate(BOUND):
            combos = [[(0, 0), (0, 0), (0, 0), (0, 0)], [(3, 3), (3, 3), (3, 13), (13, 3)], [(4, 4), (4, 4), (4, 13), (4, 13)],
                      [(7, 7), (9, 9), (7, 13), (7, 7)], [(8, 8), (10, 10), (8, 13), (8, 8)], [(0, 11), (11, 0), (11, 11), (12, 12)],
                      [(5, 5), (6, 6), (5, 6), (14, 14)], [(0, 1), (1, 0), (2, 0), (0, 2)]]
            for c, combo in enumerate(combos):
                for k, (x, y) in enumerate(combo if tier == "quick" else combo * 4):
                    a = [[(x if j % 2 == 0 else y), 1000 * i + 100 * c + 10 * k + j, (7 * k + j) % 64] for j in range(len(params))]
                    yield {"f": name, "kind": "ok", "args": a, "res": -1 if k != 3 else (i + c) % 3}
            right = len(params) + (ret != "void")
            for n in (0, 1, 2, 3, 4, 5, 6, right - 1, right + 1, right + 7):
                if n != right and n >= 0:
                    yield {"f": name, "kind": "nargs", "n": n}
        for name, n in NI:
            for k in (n, 0, n + 1):
                yield {"f": name, "kind": "ni", "n": k}

    def run(self, case, ctx):
        simd = SIMDLowAVX512()
        name = case["f"]
        try:
            f = getattr(simd, name[1:])
        except AttributeError:
            raise Violation("there is no method %s" % name[1:])
        ctypes.memmove(A1, BASE, SIZE)
        if case["kind"] != "ok":
            n = case["n"]
            if not 0 <= n < 100:
                raise Invalid("n")
            right = NINDEX[name] if case["kind"] == "ni" else len(BOUND[INDEX[name]][2]) + (BOUND[INDEX[name]][1] != "void")
            if case["kind"] == "nargs" and n == right:
                n += 1
            wanted = TypeError if case["kind"] == "nargs" else NotImplementedError if n == right else (TypeError, NotImplementedError)
            try:
                f(*[A1 + SLOT * (k % SLOTS) for k in range(n)])
            except wanted:
                pass
            except Exception as e:
                raise Violation("%s with %d arguments (%d are right) raised %r" % (name, n, right, e))
            else:
                raise Violation("%s with %d arguments (%d are right) did not raise" % (name, n, right))
            if ctypes.string_at(A1, SIZE) != BASE:
                raise Violation("%s with %d arguments: %s" % (name, n, diff(ctypes.string_at(A1, SIZE), BASE)))
            ctx.label(case["kind"])
            ctx.nt(case["kind"] == "nargs" or n == right)
            return
        if not CPU:
            return
        i = INDEX[name]
        _, ret, params = BOUND[i]
        ret = oracle19.bare(ret)
        if len(case["args"]) != len(params):
            raise Invalid("args")
        ctypes.memmove(A2, BASE, SIZE)
        py, like, cells = [], b"", []
        vecs = []
        for k, (t, (style, seed, off)) in enumerate(zip(params, case["args"])):
            t = oracle19.bare(t)
            if not (0 <= style < STYLES and 0 <= off < 64):
                raise Invalid("style")
            if t in VEC:
                data = content(style, seed, like)
                like = data
                at = SLOT * (1 + k)
                ctypes.memmove(A1 + at, data, 64)
                ctypes.memmove(A2 + at, data, 64)
                PTRS[k] = A2 + at
                py.append(A1 + at)
                vecs.append((at, VEC[t]))
            elif t.endswith("*"):
                at = SLOT * (1 + k)
                if re.search("(load|store)u_", name):
                    at += off
                elif t in ("float*", "double*") and "stream" not in name:
                    at += off // 8 * 8
                data = content(style, seed, b"")
                ctypes.memmove(A1 + at, data, 64)
                ctypes.memmove(A2 + at, data, 64)
                CELLS[len(cells)] = A1 + at
                PTRS[k] = A2 + at
                py.append(CELL0 + 8 * len(cells))
                cells.append(A1 + at)
            else:
                v = scalar(t, style, seed)
                if t == "unsigned int" and re.search("_s[lr][la]i_", name):
                    v %= 256
                at = ctypes.addressof(SCAL) + 8 * k
                if t == "float":
                    ctypes.c_float.from_address(at).value = v
                elif t == "double":
                    ctypes.c_double.from_address(at).value = v
                else:
                    ctypes.c_int64.from_address(at).value = v
                PTRS[k] = at
                py.append(v)
        res = 0
        if ret != "void":
            if case["res"] >= 0 and vecs:
                at, size = vecs[case["res"] % len(vecs)]
                res = at
            py.insert(0, A1 + res)
        keep = [CELLS[k] for k in range(len(cells))]
        ORACLE[i](A2 + res, ctypes.addressof(PTRS))
        try:
            r = f(*py)
        except Exception as e:
            raise Violation("%s%r raised %r" % (name, tuple(py), e))
        if r is not None:
            raise Violation("%s returned %r" % (name, r))
        got, want = ctypes.string_at(A1, SIZE), ctypes.string_at(A2, SIZE)
        if got != want:
            if ret != "void":
                known = min(body_of(name), SIZES[ret])
                g, w = got[res:res + SIZES[ret]], want[res:res + SIZES[ret]]
                if LOOSE.search(name) and ret in ("__m512", "__m128", "__m256", "float"):
                    g, w = self.calm(g, "f", 4), self.calm(w, "f", 4)
                elif LOOSE.search(name) and ret in ("__m512d", "__m128d", "__m256d", "double"):
                    g, w = self.calm(g, "d", 8), self.calm(w, "d", 8)
                if g[:known] != w[:known]:
                    raise Violation("%s(%s): result %s, but the intrinsic gives %s" % (name, case["args"], g[:known].hex(), w[:known].hex()))
                got = got[:res] + got[res + SIZES[ret]:]
                want = want[:res] + want[res + SIZES[ret]:]
            if got != want:
                raise Violation("%s(%s): %s" % (name, case["args"], diff(got, want)))
        if keep != [CELLS[k] for k in range(len(cells))]:
            raise Violation("%s changed the cell of a pointer" % name)
        ctx.label(("memory:" if cells else "") + ret)
        ctx.nt(bool(params))

    @staticmethod
    def calm(data, fmt, w):
        """NaNs made equal: which NaN operand survives is up to the compiler."""
        n = len(data) // w
        vals = struct.unpack("<%d%s" % (n, fmt), data)
        return b"".join(data[w * k:w * k + w] if v == v else b"\xff" * w for k, v in enumerate(vals))


CHECK = C19()
