"""C27: ASM runs exactly the code it is given; functions live until they are freed.

ASM works on Windows only. The variant "win" is built with the Windows branch of the code and a stand-in for the functions
of windows.h (native/win), the protection of pages being real; each case runs in a forked child. In the variant "plain"
everything has to be refused."""
import ctypes
import functools
import importlib
import os
import pickle
import signal
import struct
import traceback

from hypothesis import strategies as st

from pbt import gen
from pbt.engine import Invalid, Violation

CELLS = 16
M = (1 << 64) - 1
METHODS = ("run", "runFast", "makeFunction", "makeFunctionFast", "freeFunction", "freeFunctionFast")
BADFREE = ("freed", "zero", "middle", "random", "neg", "huge", "neghuge", "str", "none", "float", "bytes", "noargs", "two", "cells", "one", "kw")
BADCODE = ("str", "bytearray", "none", "int", "empty", "noargs", "two", "memoryview", "list", "type", "kw")


def library():
    return ctypes.CDLL(importlib.import_module("pyfastutil.__pyfastutil").__file__)


@functools.cache
def windows():
    """Whether this is a build of the Windows branch."""
    return hasattr(library(), "pfu_fail")


def s64(v):
    v &= M
    return v - (1 << 64) if v >> 63 else v


def assemble(code, cells, funcs):
    """Machine code, and the functions it calls."""
    out = b"\x90" * code.get("pre", 0)
    calls = []

    def at(k):
        return b"\x48\xb9" + struct.pack("<Q", cells + 8 * (k % CELLS))
    for i in code["i"]:
        o = i[0]
        if o == "st":
            out += at(i[1]) + b"\x48\xb8" + struct.pack("<Q", i[2] & M) + b"\x48\x89\x01"
        elif o == "add":
            out += at(i[1]) + b"\x48\x81\x01" + struct.pack("<i", i[2])
        elif o == "xor":
            out += at(i[1]) + b"\x48\x81\x31" + struct.pack("<i", i[2])
        elif o == "inc":
            out += at(i[1]) + b"\x48\xff\x01"
        elif o == "cp":
            out += at(i[1]) + b"\x48\x8b\x01" + at(i[2]) + b"\x48\x89\x01"
        elif o == "loop":
            out += at(i[1]) + b"\xba" + struct.pack("<I", max(1, i[2])) + b"\x48\xff\x01\xff\xca\x75\xf9"
        elif o == "call":
            if funcs:
                f = funcs[i[1] % len(funcs)]
                calls.append(f)
                out += b"\x48\x83\xec\x08\x48\xb8" + struct.pack("<Q", f["addr"]) + b"\xff\xd0\x48\x83\xc4\x08"
        else:
            raise Invalid("instruction")
    out += b"\x48\xb8" + struct.pack("<Q", code.get("ret", 0) & M) + b"\xc3"
    post = code.get("post", 0)
    return out + bytes((k * 37 + 11) & 255 for k in range(post)), calls


def effect(code, calls, mem):
    calls = iter(calls)
    for i in code["i"]:
        o = i[0]
        k = i[1] % CELLS
        if o == "st":
            mem[k] = i[2] & M
        elif o == "add":
            mem[k] = mem[k] + i[2] & M
        elif o == "xor":
            mem[k] = (mem[k] ^ i[2]) & M
        elif o == "inc":
            mem[k] = mem[k] + 1 & M
        elif o == "cp":
            mem[i[2] % CELLS] = mem[k]
        elif o == "loop":
            mem[k] = mem[k] + max(1, i[2]) & M
        elif o == "call":
            f = next(calls, None)
            if f is not None:
                effect(f["code"], f["calls"], mem)


def alive(f):
    return f["live"] and all(alive(g) for g in f["calls"])


@gen.cached
def codes():
    cell = st.integers(0, CELLS - 1)
    i32 = st.integers(-2**31, 2**31 - 1)
    ins = st.one_of(st.tuples(st.just("st"), cell, st.integers(-2**63, 2**63 - 1)), st.tuples(st.just("add"), cell, i32), st.tuples(st.just("xor"), cell, i32),
                    st.tuples(st.just("inc"), cell), st.tuples(st.just("cp"), cell, cell), st.tuples(st.just("loop"), cell, st.integers(1, 300)),
                    st.tuples(st.just("call"), st.integers(0, 9))).map(list)
    size = st.one_of(st.just(0), st.integers(0, 40), st.integers(0, 600), st.sampled_from([4000, 4064, 4085, 4096, 8192, 12000, 20000]), st.integers(0, 9000))
    return st.fixed_dictionaries({"i": st.lists(ins, max_size=5), "ret": st.one_of(st.integers(-3, 3), st.integers(-2**63, 2**63 - 1))},
                                 optional={"pre": size, "post": size})


@gen.cached
def ops():
    k = st.integers(0, 9)
    s = st.just
    op = st.one_of(
        st.tuples(st.sampled_from(("run", "runFast")), codes()), st.tuples(st.sampled_from(("make", "make", "makeFast")), codes()),
        st.tuples(st.sampled_from(("make", "makeFast")), codes()),
        st.tuples(s("call"), k), st.tuples(s("call"), k), st.tuples(s("free"), k), st.tuples(s("free"), k),
        st.tuples(s("badfree"), st.sampled_from(BADFREE)), st.tuples(s("badcode"), st.sampled_from(("run", "makeFunction")), st.sampled_from(BADCODE)),
        st.tuples(s("new")), st.tuples(s("with"))).map(list)
    failing = st.tuples(s("fail"), st.integers(1, 3), op).map(list)
    return st.lists(st.one_of(op, op, op, op, op, op, op, failing), min_size=1, max_size=14)


class C27:
    id = "C27"
    per_round = 200

    def strategy(self, tier):
        return ops().map(lambda o: {"ops": o})

    def enumerated(self, tier):
        inc = {"i": [["inc", 0]], "ret": 7}
        for pre in (0, 1, 15, 100, 500, 4000, 4096, 10000):
            code = dict(inc, pre=pre)
            for a in ("run", "runFast"):
                for n in (0, 1, 2, 5):
                    yield {"ops": [["make", inc]] * n + [[a, code], [a, code]] + [["call", i] for i in range(n)] + [["make", code], ["call", 0], [a, code]]}
        for n in (1, 2, 3, 5, 9):
            for order in (range(n), range(n - 1, -1, -1), range(0, 2 * n, 2)):
                for m in ("make", "makeFast"):
                    for pre in (0, 700, 5000):
                        yield {"ops": [[m, {"i": [["add", i, i + 1]], "ret": i, "pre": pre}] for i in range(n)]
                               + [x for k in order for x in (["free", k], ["call", 0], ["call", 1], ["run", inc])]}
        for b in BADFREE:
            for n in (0, 1, 3):
                yield {"ops": [["make", inc]] * (n + 1) + [["free", 0], ["badfree", b], ["badfree", b], ["call", 0], ["make", inc], ["run", inc], ["free", 0]]}
        for meth in ("run", "makeFunction"):
            for b in BADCODE:
                yield {"ops": [["make", inc], ["badcode", meth, b], ["badcode", meth, b], ["call", 0], ["run", inc]]}
        for k in (1, 2, 3):
            for op in (["run", inc], ["runFast", inc], ["make", inc], ["makeFast", inc], ["free", 0], ["badfree", "zero"]):
                for m in ("make", "makeFast"):
                    yield {"ops": [[m, inc], ["fail", k, op], ["call", 0], ["make", inc], ["run", inc], ["fail", k, op], ["free", 0], ["free", 0]]}
        yield {"ops": [["with"], ["new"], ["with"], ["run", inc]]}

    def run(self, case, ctx):
        supported = windows()
        ctx.label("windows" if supported else "elsewhere")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = ("error in the child", {})
            try:
                os.close(r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(20)
                labels = {}
                try:
                    Child(case, supported, labels).all()
                    out = (None, labels)
                except Violation as v:
                    out = (str(v), labels)
                except Invalid:
                    out = ("INVALID", labels)
                except BaseException:
                    out = ("unexpected: " + traceback.format_exc()[-1500:], labels)
                os.write(w, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        got = b""
        while True:
            part = os.read(r, 65536)
            if not part:
                break
            got += part
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if status:
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
                raise Violation("the operations never come to an end")
            raise Violation("the process ended with wait status %d (signal %d)" % (status, status & 127))
        msg, labels = pickle.loads(got)
        if msg == "INVALID":
            raise Invalid("case")
        if msg is not None:
            raise Violation(msg)
        for k, v in labels.items():
            ctx.label(k, v)
        ctx.nt(labels.get("effects", 0) > 0)


class Child:
    def __init__(self, case, supported, labels):
        from pyfastutil.unsafe import ASM
        self.ASM = ASM
        self.case = case
        self.labels = labels
        self.supported = supported
        self.cells = (ctypes.c_uint64 * CELLS)(*range(100, 100 + CELLS))
        self.addr = ctypes.addressof(self.cells)
        self.mem = list(self.cells)
        self.funcs = []
        self.freed = []
        self.asm = ASM()
        self.failed = False
        if supported:
            lib = library()
            self.fail_at, self.calls, self.blocks, self.unusual = lib.pfu_fail, lib.pfu_calls, lib.pfu_blocks, lib.pfu_unusual
            for f in (self.calls, self.blocks, self.unusual):
                f.restype = ctypes.c_long
            self.fail_at.argtypes = [ctypes.c_long]
            self.base = self.blocks()

    def label(self, k):
        self.labels[k] = self.labels.get(k, 0) + 1

    def live(self):
        return [f for f in self.funcs if f["live"]]

    def all(self):
        for op in self.case["ops"]:
            fail = 0
            if op[0] == "fail":
                fail, op = op[1], op[2]
            self.one(op, fail)
            self.check(op)
        if not self.supported:
            return
        for f in self.live()[::-1]:
            self.one(["call", self.live().index(f)], 0)
        while self.live():
            self.one(["free", 0], 0)
            self.check("the end")
        if self.blocks() != self.base:
            raise Violation("%d blocks of memory are left when every function is freed" % (self.blocks() - self.base))
        if self.unusual() and not self.failed:
            raise Violation("%d pages have another protection when every function is freed" % self.unusual())

    def check(self, op):
        if list(self.cells) != self.mem:
            raise Violation("after %s memory is %s, expected %s" % (op, list(self.cells), self.mem))
        if not self.supported:
            return
        spans = []
        for f in self.live():
            if ctypes.string_at(f["addr"], len(f["bytes"])) != f["bytes"]:
                raise Violation("after %s the code of a function has changed" % (op,))
            spans.append((f["addr"], f["addr"] + len(f["bytes"])))
        spans.sort()
        for a, b in zip(spans, spans[1:]):
            if a[1] > b[0]:
                raise Violation("after %s two functions overlap" % (op,))

    def attempt(self, f, fail):
        """(value, None), or (None, exception)."""
        if self.supported:
            self.fail_at(fail)
        try:
            return f(), None
        except SystemError as e:
            raise Violation("raised %r" % e)
        except Exception as e:
            return None, e
        finally:
            if self.supported:
                self.hit = fail and self.calls() >= fail
                self.fail_at(0)

    def refuse(self, op, f):
        try:
            v = f()
        except NotImplementedError:
            self.label("effects")
            return
        except Exception as e:
            raise Violation("%s raised %r where ASM isn't supported" % (op, e))
        raise Violation("%s gave %r where ASM isn't supported" % (op, v))

    def one(self, op, fail):
        o = op[0]
        self.label("op:" + o)
        if o == "new":
            self.asm = self.ASM()
            return
        if o == "with":
            a = self.ASM()
            with a as b:
                if a is not b:
                    raise Violation("with ASM() gives another object")
            self.asm = a
            return
        if o in ("run", "runFast"):
            code, calls = assemble(op[1], self.addr, [f for f in self.live() if alive(f)])
            keep = bytes(bytearray(code))
            f = getattr(self.asm, o)
            if not self.supported:
                return self.refuse(op, lambda: f(code))
            v, e = self.attempt(lambda: f(code), fail)
            if v is not None:
                raise Violation("%s gave %r" % (o, v))
            if code != keep:
                raise Violation("%s changed its argument" % o)
            if e is None:
                effect(op[1], calls, self.mem)
                if self.hit:
                    raise Violation("%s succeeded although the protection could not be changed" % o)
                self.label("effects")
            else:
                self.oserror(o, e, fail)
                if list(self.cells) != self.mem and fail > 1:
                    effect(op[1], calls, self.mem)
        elif o in ("make", "makeFast"):
            code, calls = assemble(op[1], self.addr, [f for f in self.live() if alive(f)])
            keep = bytes(bytearray(code))
            f = getattr(self.asm, "makeFunction" + o[4:])
            if not self.supported:
                return self.refuse(op, lambda: f(code))
            v, e = self.attempt(lambda: f(code), fail)
            if e is not None:
                self.oserror(o, e, fail)
                return
            if type(v) is not int or v <= 0:
                raise Violation("%s gave %r" % (o, v))
            if any(g["addr"] == v for g in self.live()):
                raise Violation("%s gave the address of another function" % o)
            if self.hit:
                raise Violation("%s succeeded although the protection could not be changed" % o)
            self.funcs.append({"addr": v, "bytes": keep, "code": op[1], "calls": calls, "live": True, "fast": o == "makeFast"})
        elif o == "call":
            ok = [f for f in self.live() if alive(f)]
            if not ok:
                return
            f = ok[op[1] % len(ok)]
            got = ctypes.CFUNCTYPE(ctypes.c_int64)(f["addr"])()
            effect(f["code"], f["calls"], self.mem)
            if got != s64(f["code"].get("ret", 0)):
                raise Violation("a function returned %d, expected %d" % (got, s64(f["code"].get("ret", 0))))
            self.label("effects")
        elif o == "free":
            if not self.supported:
                self.refuse(op, lambda: self.asm.freeFunction(4096))
                return self.refuse(op, lambda: self.asm.freeFunctionFast(4096))
            live = self.live()
            if not live:
                return
            f = live[op[1] % len(live)]
            free = self.asm.freeFunctionFast if f["fast"] else self.asm.freeFunction
            v, e = self.attempt(lambda: free(f["addr"]), fail)
            if v is not None:
                raise Violation("freeFunction gave %r" % (v,))
            if e is not None:
                self.oserror(o, e, fail)
                if not f["fast"]:
                    # it may be tried again
                    v, e = self.attempt(lambda: free(f["addr"]), 0)
                    if e is not None and not isinstance(e, ValueError):
                        raise Violation("freeFunction raised %r when tried again" % e)
                else:
                    v, e = self.attempt(lambda: free(f["addr"]), 0)
                    if e is not None:
                        raise Violation("freeFunctionFast raised %r when tried again" % e)
            f["live"] = False
            self.freed.append(f["addr"])
        elif o == "badfree":
            self.badfree(op[1], fail)
        elif o == "badcode":
            self.badcode(op[1], op[2])
        else:
            raise Invalid("op")

    def oserror(self, o, e, fail):
        if not fail or not self.hit:
            raise Violation("%s raised %r" % (o, e))
        if not isinstance(e, OSError):
            raise Violation("%s raised %r when the protection could not be changed" % (o, e))
        self.failed = True
        self.label("refused by the system")

    def badfree(self, kind, fail):
        addrs = {f["addr"] for f in self.live()}
        live = self.live()
        args = {"freed": lambda: (next((a for a in self.freed[::-1] if a not in addrs), 0),), "zero": lambda: (0,),
                "middle": lambda: (live[0]["addr"] + 16 if live else 0,), "random": lambda: (0x1234560,), "neg": lambda: (-5,), "huge": lambda: (1 << 70,),
                "neghuge": lambda: (-1 << 70,), "str": lambda: ("x",), "none": lambda: (None,), "float": lambda: (1.5,), "bytes": lambda: (b"abc",),
                "noargs": lambda: (), "two": lambda: (16, 32), "cells": lambda: (self.addr,), "one": lambda: (live[0]["addr"] + 1 if live else 1,),
                "kw": lambda: (0,)}.get(kind)
        if args is None:
            raise Invalid("badfree")
        args = args()
        kw = {"nonsense": 1} if kind == "kw" else {}
        if not self.supported:
            if kw:
                return
            return self.refuse(["badfree", kind], lambda: self.asm.freeFunction(*args))
        before = self.blocks()
        v, e = self.attempt(lambda: self.asm.freeFunction(*args, **kw), fail)
        if e is None:
            raise Violation("freeFunction%r succeeded" % (args,))
        if kind in ("freed", "zero", "middle", "random", "neg", "cells", "one") and not (self.hit or isinstance(e, ValueError)):
            raise Violation("freeFunction%r raised %r" % (args, e))
        if self.blocks() != before:
            raise Violation("freeFunction%r freed memory" % (args,))
        self.label("badfree")

    def badcode(self, meth, kind):
        good, _ = assemble({"i": [["st", 0, 1]]}, self.addr, [])
        args = {"str": ("\x90\xc3",), "bytearray": (bytearray(good),), "none": (None,), "int": (5,), "empty": (b"",), "noargs": (), "two": (good, good),
                "memoryview": (memoryview(good),), "list": ([144, 195],), "type": (bytes,), "kw": (good,)}.get(kind)
        if args is None or meth not in ("run", "makeFunction"):
            raise Invalid("badcode")
        kw = {"nonsense": 1} if kind == "kw" else {}
        if not self.supported:
            if kw:
                return
            return self.refuse(["badcode", meth, kind], lambda: getattr(self.asm, meth)(*args))
        before = self.blocks()
        v, e = self.attempt(lambda: getattr(self.asm, meth)(*args, **kw), 0)
        if e is None:
            raise Violation("%s of %s succeeded" % (meth, kind))
        if self.blocks() != before:
            raise Violation("%s of %s left memory behind" % (meth, kind))
        self.label("badcode")


CHECK = C27()
