"""C15: Unsafe memory operations touch exactly the addressed bytes."""
import ctypes
import hashlib

from hypothesis import strategies as st

from pbt import gen
from pbt.engine import Invalid, Violation
from pyfastutil.unsafe import NULL, Unsafe

ARENA = 4096
SIZES = st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(0, 300), st.integers(0, 5000),
                  st.sampled_from([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024,
                                   1025, 1032, 1040, 4095, 4096, 4097, 70000, 131072, 140000]))
ALIGNS = st.sampled_from([1, 2, 4, 8, 16, 16, 32, 32, 64, 64, 128, 256, 512, 1024, 4096])
ANY = st.integers(0, 10**6)
LEN = st.one_of(st.integers(0, 40), st.integers(0, 300), st.sampled_from([0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 256, 1024, 4096]),
                st.sampled_from([2048, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 140000]))
OFF = st.one_of(st.integers(0, 70), ANY)
VAL = st.one_of(st.integers(0, 255), st.sampled_from([0, 255, 128, 127, 256, 257, -1, -128, 511, 65535, 2**31 - 1, -2**31, 1000]))
BLOCK = st.integers(-1, 7)


BASE = hashlib.shake_128(b"c15").digest(1600000)


def pattern(n, seed):
    """n bytes without a period, another sequence for each seed."""
    if not 0 <= seed < 1000 or n > 1550000:
        raise Invalid("pattern")
    return BASE[seed * 37:seed * 37 + n]


@gen.cached
def ops(max_ops):
    alloc = st.one_of(gen.cmd("malloc", SIZES), gen.cmd("calloc", st.integers(0, 70), st.integers(0, 70)), gen.cmd("calloc", SIZES, st.integers(0, 9)),
                      gen.cmd("amalloc", SIZES, ALIGNS), gen.cmd("amalloc", SIZES, ALIGNS))
    use = st.one_of(gen.cmd("set", BLOCK, OFF, LEN, st.integers(0, 999)), gen.cmd("set", BLOCK, OFF, LEN, st.integers(0, 999)),
                    gen.cmd("setall", BLOCK, st.integers(0, 999)), gen.cmd("get", BLOCK, OFF, LEN),
                    gen.cmd("memcpy", BLOCK, OFF, BLOCK, OFF, LEN), gen.cmd("memcpy", BLOCK, OFF, BLOCK, OFF, LEN),
                    gen.cmd("memset", BLOCK, OFF, VAL, LEN), gen.cmd("memset", BLOCK, OFF, VAL, LEN))
    other = st.one_of(gen.cmd("realloc", BLOCK, SIZES), gen.cmd("realloc", BLOCK, SIZES), gen.cmd("free", BLOCK), gen.cmd("free", BLOCK), gen.cmd("recycle", BLOCK),
                      gen.cmd("bad", st.integers(0, 18), BLOCK))
    return st.lists(st.one_of(alloc, alloc, use, use, use, other, other), min_size=1, max_size=max_ops)


class Block:
    def __init__(self, addr, size, aligned, shadow):
        self.addr, self.size, self.aligned, self.shadow = addr, size, aligned, shadow


class C15:
    id = "C15"

    def strategy(self, tier):
        return st.builds(lambda o: {"ops": o}, ops(20))

    def enumerated(self, tier):
        top = 140 if tier == "quick" else 400
        for n in range(top):
            for off in (0, 1, 3, 8, 13, 31) if tier == "quick" else range(64):
                yield {"ops": [["set", -1, off, n, 5], ["get", -1, off, n], ["memcpy", -1, off, -1, off + n + 64, n], ["memset", -1, off + 1, 300 + n, n],
                               ["memcpy", -1, 2000, -1, off, n]]}
        for n in list(range(0, top)) + [1023, 1024, 1025, 4096, 65536, 140000]:
            yield {"ops": [["malloc", n], ["setall", 0, 3], ["recycle", 0], ["realloc", 0, n + 9], ["setall", 0, 4], ["realloc", 0, max(1, n // 2)],
                           ["realloc", 0, 200000], ["free", 0]]}
            for a in (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096):
                yield {"ops": [["amalloc", n, a], ["setall", 0, 7], ["amalloc", n, a], ["setall", 1, 8], ["amalloc", n + 1, a], ["malloc", n], ["setall", 2, 9],
                               ["free", 1], ["memcpy", 0, 0, 1, 0, n], ["free", 0]]}
        for n in (5000, 8192, 16385, 32769, 65536, 65537, 131072, 140001, 262144, 262145, 524288, 1048576, 1048577, 1400000):
            for off in (0, 1, 7, 64):
                for how in ("malloc", "amalloc"):
                    block = ["amalloc", n, 64] if how == "amalloc" else ["malloc", n]
                    yield {"ops": [block, block, ["setall", 0, off + 1], ["setall", 1, off + 2], ["memcpy", 0, off, 1, 3, n - 70], ["memset", 0, off, 173 + off, n - 90],
                                   ["get", 1, off, n - 80], ["set", 1, 5, n - 77, off], ["memset", 1, 1, 0, n - 10], ["free", 0], ["calloc", n // 9, 9],
                                   ["recycle", 0], ["realloc", 1, n + 5000], ["realloc", 1, n // 3]]}
        for b in range(19):
            yield {"ops": [["malloc", 32], ["setall", 0, 3], ["bad", b, 0], ["bad", b, -1], ["get", 0, 0, 32]]}

    def run(self, case, ctx):
        u = Unsafe()
        arena = ctypes.create_string_buffer(pattern(ARENA, 77), ARENA)
        first = Block(ctypes.addressof(arena), ARENA, None, bytearray(pattern(ARENA, 77)))
        blocks = []
        kept = []
        try:
            with u as e:
                if e is not u:
                    raise Violation("__enter__ gave %r" % (e,))
                self.steps(case, ctx, u, first, blocks, kept)
        finally:
            for b in blocks:
                if b.aligned:
                    u.aligned_free(b.addr)
                else:
                    u.free(b.addr)
        for got, want in kept:
            if got != want:
                raise Violation("bytes given by get changed later")
        del arena

    def steps(self, case, ctx, u, first, blocks, kept):
        wrote = 0
        for k, op in enumerate(case["ops"]):
            name = op[0]
            what = "step %d %s" % (k, op)
            for x in op[1:]:
                if not isinstance(x, int) or abs(x) > 2**32:
                    raise Invalid("arg")

            def block(i):
                return first if i < 0 or not blocks else blocks[i % len(blocks)]

            def span(b, off, n):
                n = min(n, b.size)
                off = off % (b.size - n + 1)
                return off, n

            def heap(i):
                return blocks[i % len(blocks)] if blocks else None

            def new(addr, size, aligned, known):
                if type(addr) is not int or addr <= 0:
                    raise Violation("%s gave the address %r" % (what, addr))
                for b in blocks + [first]:
                    if addr < b.addr + max(1, b.size) and b.addr < addr + max(1, size):
                        raise Violation("%s gave %#x, %d bytes, which overlaps the live block %#x of %d bytes" % (what, addr, size, b.addr, b.size))
                if aligned and addr % aligned:
                    raise Violation("%s gave %#x, which is not a multiple of %d" % (what, addr, aligned))
                real = ctypes.string_at(addr, size)
                if known is not None and real[:len(known)] != known:
                    raise Violation("%s: the block does not hold what it has to (%s)" % (what, diff(real, known)))
                blocks.append(Block(addr, size, aligned, bytearray(real)))

            if name in ("malloc", "calloc", "amalloc"):
                if name == "malloc":
                    if not 0 <= op[1] <= 1500000:
                        raise Invalid("size")
                    new(u.malloc(op[1]), op[1], 0, None)
                elif name == "calloc":
                    n = op[1] * op[2]
                    if n > 1500000 or op[1] < 0 or op[2] < 0:
                        raise Invalid("size")
                    new(u.calloc(op[1], op[2]), n, 0, bytes(n))
                else:
                    if op[2] <= 0 or op[2] & op[2] - 1 or op[2] > 4096 or not 0 <= op[1] <= 1500000:
                        raise Invalid("alignment")
                    new(u.aligned_malloc(op[1], op[2]), op[1], op[2], None)
            elif name == "realloc":
                if not 0 <= op[2] <= 1500000:
                    raise Invalid("size")
                n = max(1, op[2])
                b = heap(op[1])
                if b is None:
                    new(u.realloc(NULL, n), n, 0, None)
                elif not b.aligned:
                    addr = u.realloc(b.addr, n)
                    blocks.remove(b)
                    new(addr, n, 0, bytes(b.shadow[:n]))
                    wrote += 1
            elif name == "free":
                b = heap(op[1])
                if b is None:
                    r = u.free(NULL)
                else:
                    r = u.aligned_free(b.addr) if b.aligned else u.free(b.addr)
                    blocks.remove(b)
                if r is not None:
                    raise Violation("%s returned %r" % (what, r))
            elif name == "recycle":
                # memory that was in use comes back from calloc
                b = heap(op[1])
                if b is not None and not b.aligned:
                    u.memset(b.addr, 0xA5, b.size)
                    blocks.remove(b)
                    u.free(b.addr)
                    new(u.calloc(b.size, 1), b.size, 0, bytes(b.size))
                    wrote += 1
            elif name in ("set", "setall"):
                b = block(op[1])
                off, n = span(b, op[2], op[3]) if name == "set" else (0, b.size)
                data = pattern(n, op[-1])
                keep = bytes(bytearray(data))
                r = u.set(b.addr + off, data)
                if r is not None:
                    raise Violation("%s returned %r" % (what, r))
                if data != keep:
                    raise Violation("%s changed its argument" % what)
                b.shadow[off:off + n] = data
                wrote += n > 0
            elif name == "get":
                b = block(op[1])
                off, n = span(b, op[2], op[3])
                r = u.get(b.addr + off, n)
                want = bytes(b.shadow[off:off + n])
                if type(r) is not bytes or r != want:
                    raise Violation("%s gave %r, the memory holds %r" % (what, r[:100], want[:100]))
                kept.append((r, want))
            elif name == "memcpy":
                a, b = block(op[1]), block(op[3])
                n = min(op[5], a.size, b.size)
                if a is b:
                    n = min(n, a.size // 2)
                fo, n = span(a, op[2], n)
                to, n = span(b, op[4], n)
                if a is b and fo < to + n and to < fo + n:
                    if n > a.size // 2:
                        continue
                    fo, to = (0, a.size - n) if fo <= to else (a.size - n, 0)
                if u.memcpy(a.addr + fo, b.addr + to, n) is not None:
                    raise Violation("%s returned something" % what)
                b.shadow[to:to + n] = a.shadow[fo:fo + n]
                wrote += n > 0
            elif name == "memset":
                b = block(op[1])
                off, n = span(b, op[2], op[4])
                if u.memset(b.addr + off, op[3], n) is not None:
                    raise Violation("%s returned something" % what)
                b.shadow[off:off + n] = bytes([op[3] & 255]) * n
                wrote += n > 0
            elif name == "bad":
                b = block(op[2])
                p = b.addr
                calls = [
                    lambda: u.malloc(2**62), lambda: u.calloc(2**40, 2**40), lambda: u.calloc(2**33, 2**33), lambda: u.malloc(-1), lambda: u.malloc("1"),
                    lambda: u.malloc(2**64), lambda: u.set(p, bytearray(b"x" * 8)), lambda: u.set(p, "xxxx"), lambda: u.set(p), lambda: u.get(p),
                    lambda: u.memcpy(p, p), lambda: u.memcpy(p, "x", 4), lambda: u.memcpy(p, p, -4), lambda: u.memset(p, "x", 4), lambda: u.memset(p, 2**70, 4),
                    lambda: u.memset(p, 1, -1), lambda: u.memset(p, 1), lambda: u.free("x"), lambda: u.aligned_free(None)]
                try:
                    calls[op[1] % len(calls)]()
                except SystemError as e:
                    raise Violation("%s raised %r" % (what, e))
                except Exception:
                    pass
                else:
                    raise Violation("%s: the wrong call was accepted" % what)
                if op[1] == 0 and b is not first and not b.aligned:
                    try:
                        u.realloc(p, 2**62)
                    except MemoryError:
                        pass
                    else:
                        raise Violation("%s: realloc to 2**62 succeeded" % what)
            else:
                raise Invalid("op")
            ctx.label("op:" + name)
            for b in blocks + [first]:
                real = ctypes.string_at(b.addr, b.size)
                if real != b.shadow:
                    raise Violation("%s: %s of %d bytes is wrong: %s" % (what, "the arena" if b is first else "block %d" % blocks.index(b),
                                                                          b.size, diff(real, b.shadow)))
            if sum(b.size for b in blocks) > 4 << 20:
                break
        ctx.nt(wrote >= 1 and len(case["ops"]) > 1)


def diff(real, want):
    bad = [i for i in range(min(len(real), len(want))) if real[i] != want[i]]
    if not bad:
        return "length"
    i = bad[0]
    return "%d bytes differ from offset %d to %d; there %s instead of %s" % (len(bad), i, bad[-1], real[i:i + 16].hex(), bytes(want[i:i + 16]).hex())


CHECK = C15()
