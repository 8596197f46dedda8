"""C22: text written and read by Unsafe is exact.

Each case runs in a forked child with descriptors 0 and 1 of its own; the
parent feeds its standard input in generated pieces."""
import ctypes
import os
import pickle
import signal

from hypothesis import strategies as st

from pbt import gen
from pbt.cont import Invalid, IntSub, Violation
from pyfastutil.unsafe import Unsafe

LIBC = ctypes.CDLL(None)
STDOUT = ctypes.c_void_p.in_dll(LIBC, "stdout")
LIBC.setvbuf.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_size_t]
BADSIZE = (0, -1, -2**31, -2**31 + 1, None, "5", 5.0, 2**70, -2**70, 2**63, b"5", [5])
BADTEXT = (None, 5, b"x", ["x"], "\ud800", "ok\udfff", 1.5)
ALPHA = "ab \n\n\u00e9\u4e2d\U0001f600\0%s\\\r\t\x7f\x80\u07ff\u0800\uffff\U00010000\U0010ffff"


@gen.cached
def texts():
    return st.one_of(st.text(alphabet=ALPHA, max_size=30), st.text(alphabet="abc\n", max_size=60), st.text(max_size=10).filter(encodable),
                     st.tuples(st.text(alphabet=ALPHA, min_size=1, max_size=6), gen.sampled((3, 100, 700, 2048, 4096, 9000))).map(lambda t: t[0] * t[1]),
                     st.tuples(gen.sampled(("", "x", "\n", "\u4e2d")), gen.sampled((1023, 1024, 4095, 4096, 4097, 8191, 8192, 65535, 65536))).map(
                         lambda t: "a" * t[1] + t[0]))


def encodable(s):
    try:
        s.encode()
    except UnicodeEncodeError:
        return False
    return True


@gen.cached
def ops():
    size = st.one_of(st.integers(1, 12), gen.sampled((2, 3, 4, 5, 64, 100, 128, 255, 256, 1024, 4096, 8192, 100000, 2**31 - 1, 2**31, 2**32, 2**32 + 3, 2**40)))
    gets = size.map(lambda n: ["gets", n])
    return st.lists(st.one_of(gets, gets, gets, size.map(lambda n: ["getsall", n]), texts().map(lambda t: ["puts", t]), texts().map(lambda t: ["puts", t]),
                              st.just(["flush"]), st.integers(0, len(BADSIZE) - 1).map(lambda k: ["badgets", k]),
                              st.integers(0, len(BADTEXT) - 1).map(lambda k: ["badputs", k])), min_size=1, max_size=14)


@st.composite
def cases(draw):
    return {"input": "".join(draw(st.lists(texts(), max_size=4))), "cut": draw(st.integers(1, 9000)), "ops": draw(ops()), "file": draw(gen.sampled((0, 0, 1))),
            "buf": draw(gen.sampled((0, 0, 0, 1, 2))), "size": draw(gen.sampled((1, 2, 16, 1000, 4096, 65536)))}


class C22:
    id = "C22"

    def strategy(self, tier):
        return cases()

    def enumerated(self, tier):
        for size in range(1, 9):
            for t in ("", "\n", "a", "ab\ncd", "\u00e9\u4e2d\U0001f600", "a\u00e9b\u4e2dc\U0001f600d\n\n", "\0a\0\n\0", "abcdefg\nabcdefgh\nabcdef\n"):
                yield {"input": t, "cut": 1, "file": size % 2, "ops": [["getsall", size], ["gets", size], ["gets", 1]]}
        for n in (0, 1, 1023, 1024, 4095, 4096, 4097, 65536, 300000):
            for t in ("a", "\n", "\u4e2d", "ab\n"):
                yield {"input": t * n, "cut": 4096, "file": 0, "ops": [["puts", t * n], ["gets", 10], ["puts", "x"], ["flush"], ["puts", "\0y\u00e9"], ["getsall", 2**31]]}
                yield {"input": t * min(n, 5000), "cut": 4096, "file": 1, "ops": [["getsall", 5], ["puts", t], ["puts", "%d%n\n"], ["flush"]]}
        for buf in (0, 1, 2):
            for n in (1, 2, 3, 15, 16, 17, 100):
                for size in (1, 16, 4096):
                    yield {"input": "", "cut": 1, "file": 0, "buf": buf, "size": size,
                           "ops": [["flush"], ["puts", "x" * n], ["flush"], ["puts", "y"], ["flush"], ["puts", ""], ["flush"], ["puts", "\n"], ["flush"], ["puts", "\0"]]}
        for k in range(len(BADSIZE)):
            yield {"input": "abc\ndef", "cut": 2, "file": 0, "ops": [["badgets", k], ["gets", 3], ["badgets", k], ["getsall", 3]]}
        for k in range(len(BADTEXT)):
            yield {"input": "", "cut": 2, "file": 0, "ops": [["badputs", k], ["puts", "a"], ["badputs", k], ["flush"]]}

    def run(self, case, ctx):
        try:
            data = case["input"].encode()
        except UnicodeEncodeError:
            raise Invalid("input")
        if not 1 <= case.get("size", 1) <= 1 << 20 or case.get("buf", 0) not in (0, 1, 2):
            raise Invalid("buf")
        if case["cut"] < 1:
            raise Invalid("cut")
        out = os.memfd_create("out")
        rr, rw = os.pipe()
        if case["file"]:
            ir, iw = os.memfd_create("in"), None
            os.write(ir, data)
            os.lseek(ir, 0, 0)
        else:
            ir, iw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.dup2(ir, 0)
                os.dup2(out, 1)
                os.close(rr)
                if iw is not None:
                    os.close(iw)
                os.close(ir)
                signal.alarm(60)
                try:
                    labels = {}
                    # as python or python -u would have left it
                    self.keep = ctypes.create_string_buffer(case.get("size", 4096))
                    LIBC.setvbuf(STDOUT, self.keep, case.get("buf", 0), case.get("size", 4096))
                    self.child(case["ops"], data, out, labels)
                    msg = None
                except Violation as e:
                    msg = str(e)
                except Invalid:
                    msg = "INVALID"
                except BaseException as e:
                    msg = "unexpected %r" % (e,)
                os.write(rw, pickle.dumps((msg, labels)))
            finally:
                os._exit(0)
        os.close(rw)
        os.close(out)
        os.close(ir)
        if iw is not None:
            try:
                for i in range(0, len(data), case["cut"]):
                    view = data[i:i + case["cut"]]
                    while view:
                        view = view[os.write(iw, view):]
            except BrokenPipeError:
                pass
            os.close(iw)
        got = b""
        while True:
            piece = os.read(rr, 65536)
            if not piece:
                break
            got += piece
        os.close(rr)
        _, status = os.waitpid(pid, 0)
        if not got:
            raise Violation("the process died with status %#x: %s" % (status, str(case)[:500]))
        msg, labels = pickle.loads(got)
        if msg == "INVALID":
            raise Invalid("op")
        if msg:
            raise Violation(msg)
        for k, v in labels.items():
            ctx.label(k, v)
        ctx.nt(labels.get("read", 0) + labels.get("written", 0) > 1)

    def child(self, ops, data, out, labels):
        u = Unsafe()
        pos = 0
        written = b""

        def count(name):
            labels[name] = labels.get(name, 0) + 1

        for op in ops + [["flush"]]:
            kind = op[0]
            if kind in ("gets", "getsall"):
                n = op[1]
                if not isinstance(n, int) or n < 1:
                    raise Invalid("n")
                if kind == "getsall" and n < 2:
                    n = 2
                for again in range(10**6):
                    r = u.fgets(IntSub(n) if again % 7 == 3 else n)
                    pos = self.line(r, n, data, pos)
                    count("read" if r else "empty")
                    if kind == "gets" or not r:
                        break
                if kind == "getsall" and pos != len(data):
                    raise Violation("fgets(%d) returned '' after %d of %d bytes" % (n, pos, len(data)))
            elif kind == "puts":
                try:
                    b = op[1].encode()
                except UnicodeEncodeError:
                    raise Invalid("text")
                r = u.fputs(op[1])
                if r is not None:
                    raise Violation("fputs returned %r" % (r,))
                written += b
                if b:
                    count("written")
            elif kind == "flush":
                r = u.fflush()
                if r is not None:
                    raise Violation("fflush returned %r" % (r,))
                size = os.fstat(out).st_size
                real = os.pread(out, size + 1, 0)
                if real != written:
                    k = next((i for i, (x, y) in enumerate(zip(real, written)) if x != y), min(len(real), len(written)))
                    raise Violation("%d bytes were written, %d arrived after fflush; first difference at %d: %r, not %r" % (
                        len(written), len(real), k, real[k:k + 20], written[k:k + 20]))
                count("flushed")
            elif kind in ("badgets", "badputs"):
                v = (BADSIZE if kind == "badgets" else BADTEXT)[op[1]]
                try:
                    r = (u.fgets if kind == "badgets" else u.fputs)(v)
                except SystemError as e:
                    raise Violation("%s(%r) raised %r" % (kind[3:], v, e))
                except Exception:
                    count("refused")
                else:
                    raise Violation("f%s(%r) returned %r" % (kind[3:], v, r))
            else:
                raise Invalid("op")

    @staticmethod
    def line(r, n, data, pos):
        if type(r) is not str:
            raise Violation("fgets returned %r" % (r,))
        b = r.encode(errors="surrogatepass")
        where = "fgets(%d) at byte %d of %d" % (n, pos, len(data))
        if data[pos:pos + len(b)] != b:
            raise Violation("%s returned %r, the input goes on with %r" % (where, r[:80], data[pos:pos + 80]))
        if len(r) > n - 1:
            raise Violation("%s returned %d characters: %r" % (where, len(r), r[:80]))
        if "\n" in r[:-1]:
            raise Violation("%s returned more than a line: %r" % (where, r[:80]))
        end = pos + len(b)
        full = min(pos + n - 1, len(data))
        nl = data.find(b"\n", pos, full)
        if nl >= 0:
            full = nl + 1
        if end != full:
            # only a character across the limit is a reason to stop elsewhere
            across = full < len(data) and data[full] & 0xC0 == 0x80
            if not (across and abs(end - full) <= 3 and (b or n == 1)):
                raise Violation("%s returned %d bytes, not %d: %r" % (where, len(b), full - pos, r[:80]))
        return end


CHECK = C22()
