"""Runs the programs of C29, each in a forked copy of a bare interpreter that ends by itself.

stdin: one JSON program per line; stdout: one JSON line with its wait status, its events and what it wrote to stderr."""
import json
import os
import select
import signal
import sys

NAMES = {"IAL": ("ints", "IntArrayList"), "BIAL": ("ints", "BigIntArrayList"), "ILL": ("ints", "IntLinkedList"), "OAL": ("objects", "ObjectArrayList"),
         "OLL": ("objects", "ObjectLinkedList")}
INTS = ("IAL", "BIAL", "ILL")
LIMIT = 8


def serve():
    for line in sys.stdin:
        job = json.loads(line)
        er, ew = os.pipe()
        xr, xw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(er)
            os.close(xr)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            os.dup2(xw, 2)
            os.dup2(ew, 9)
            for fd in {null, xw, ew} - {9}:
                os.close(fd)
            signal.alarm(LIMIT)
            return job
        os.close(ew)
        os.close(xw)
        got = {er: b"", xr: b""}
        live = {er, xr}
        while live:
            for fd in select.select(list(live), [], [])[0]:
                b = os.read(fd, 65536)
                if b:
                    got[fd] += b
                else:
                    os.close(fd)
                    live.discard(fd)
        _, status = os.waitpid(pid, 0)
        sys.stdout.write(json.dumps([status, got[er].decode("latin-1"), got[xr].decode("latin-1")[-3000:]]) + "\n")
        sys.stdout.flush()
    os._exit(0)


def event(*a, write=os.write, join=" ".join, map=map, str=str):
    write(9, (join(map(str, a)) + "\n").encode())


class Tracked:
    """Reports its end."""

    def __init__(self, n):
        self.n = n

    def __del__(self, write=os.write):
        write(9, b"end %d\n" % self.n)


class Holder:
    """Uses what it holds when it ends."""

    def __init__(self, n, x):
        self.n = n
        self.x = x

    def __del__(self, write=os.write, len=len, list=list):
        x = self.x
        write(9, b"holder %d %d\n" % (self.n, len(x)))
        if self.n % 3 == 1:
            x.append(1)
            x.pop()
        elif self.n % 3 == 2:
            x.extend([1, 2])
            del x[-2:]
        write(9, b"held %d\n" % len(list(x)))


class Busy:
    def __del__(self):
        for _ in range(10):
            pass

    def __eq__(self, other):
        for _ in range(3):
            pass
        return False

    def __lt__(self, other):
        for _ in range(3):
            pass
        return id(self) < id(other)

    def __index__(self):
        for _ in range(3):
            pass
        return 1

    def __repr__(self):
        for _ in range(3):
            pass
        return "Busy"


def key(v):
    for _ in range(2):
        pass
    return v


def busy(n):
    for i in range(n):
        yield i


def busy_objs(n):
    for i in range(n):
        yield Busy()


def daemon(C, ints, ks):
    """What a thread keeps doing until the process ends."""
    x = C(range(50)) if ints else C(busy_objs(30))
    while True:
        for k in ks:
            y = C(busy(20)) if ints else C(busy_objs(10))
            if k == 0:
                x.sort(key=key if ints else id)
            elif k == 1:
                y.extend(busy(30) if ints else busy_objs(10))
                y += list(y)
            elif k == 2:
                Busy() in y, y.count(Busy())
                try:
                    y.remove(Busy() if not ints else 10**30)
                except (ValueError, OverflowError):
                    pass
            elif k == 3:
                y == x, y == list(y), y < list(y)
            elif k == 4:
                y.clear()
            elif k == 5:
                while len(y):
                    y.pop()
            elif k == 6:
                it = iter(y)
                y = None
                for _ in it:
                    pass
                it = None
            elif k == 7:
                y[:] = [1, 2] if ints else list(busy_objs(3))
                del y[::2]
                y *= 2
                y *= 0
            elif k == 8:
                for _ in range(10):
                    y[0] = Busy()
                    y.insert(Busy(), Busy())
                    y[Busy()]
                    del y[Busy()]
            elif k == 9:
                repr(y), str(y), y.copy(), y + y, y * 2, y[1:4]
            elif k == 10:
                y.sort() if ints else y.sort(key=lambda v: v)
            elif k == 11:
                y.reverse()
                list(reversed(y))
                it = iter(y)
                next(it), next(it)


def plain(x, depth=0):
    if isinstance(x, int):
        return x
    if depth > 3:
        return "..."
    if hasattr(x, "append"):
        return [plain(v, depth + 1) for v in x]
    return type(x).__name__ if type(x).__name__ in ("Tracked", "Holder", "str", "NoneType") else "other"


def program(job, ns):
    import importlib
    lists = job["mode"] == "list"
    serial = [0]
    held = []
    objs = []                # [accepts objects, object]

    def cls(c, sub=0):
        if lists:
            base = list
        else:
            m, n = NAMES[c]
            base = getattr(importlib.import_module("pyfastutil." + m), n)
        return type("Sub", (base,), {"__del__": (lambda self, event=event, len=len: event("sub", len(self)))} if sub == 2 else {}) if sub else base

    def values(c, vals):
        out = []
        for v in vals:
            if c in INTS or v % 3 == 0:
                out.append(v)
            elif v % 3 == 1:
                serial[0] += 1
                out.append(Tracked(serial[0]))
            else:
                out.append("s%d" % v)
        return out

    def pick(k):
        return objs[k % len(objs)][1]

    done = set()
    for op in job["ops"]:
        o = op[0]
        done.add(o)
        if o == "import":
            for m in op[1]:
                if not lists:
                    importlib.import_module(m)
        elif o == "reimport":
            for m in [m for m in sys.modules if m.startswith("pyfastutil") and (op[1] == 0 or m != "pyfastutil")]:
                del sys.modules[m]
            m = None
            if not lists:
                import pyfastutil.ints
                import pyfastutil.objects
                import pyfastutil.unsafe
        elif o == "reload":
            if not lists:
                importlib.reload(importlib.import_module(op[1]))
        elif o == "delmod":
            for m in [m for m in sys.modules if m.startswith("pyfastutil")]:
                del sys.modules[m]
        elif o == "make":
            C = cls(op[1], op[2])
            objs.append([op[1] not in INTS, C(values(op[1], op[3]))])
        elif o == "bare":
            C = cls(op[1], op[2])
            objs.append([op[1] not in INTS, C.__new__(C)])
        elif o == "sub":
            if "daemon" in done:                 # starting an interpreter may hang then
                continue
            import _xxsubinterpreters as S
            i = S.create(isolated=False)
            code = ["import sys, os", "sys.path[:] = %r" % (sys.path,), "class T:", "    def __del__(s, w=os.write): w(9, b'sub end\\n')"]
            if lists:
                code += ["%s = list" % n for _, n in NAMES.values()]
            else:
                code += ["from pyfastutil.%s import %s" % p for p in NAMES.values()]
            n = NAMES[op[1]][1]
            code += ["x = %s(%r)" % (n, op[3]), "os.write(9, b'sub %s\\n' % str(list(x)).encode())"]
            if op[1] not in INTS:
                code += ["x.append(T())"]
                if op[2]:
                    code += ["x.append(x)"]
            else:
                code += ["x.sort()", "os.write(9, b'sub %s\\n' % str(list(x)).encode())"]
            if op[2]:
                code += ["class Sub(%s): pass" % n, "y = Sub(x)", "T.x = y"]
            try:
                S.run_string(i, "\n".join(code))
            except S.RunFailedError as e:
                event("sub failed", str(e).replace("\n", " "))
            S.destroy(i)
        elif not objs:
            continue
        elif o == "cycle":
            x, y = objs[op[1] % len(objs)], objs[op[2] % len(objs)]
            if x[0]:
                x[1].append(y[1])
        elif o == "holder":
            serial[0] += 1
            h = Holder(serial[0], pick(op[1]))
            if op[2] == 0:
                x = objs[op[3] % len(objs)]
                if x[0]:
                    x[1].append(h)
            elif op[2] == 1:
                ns["h%d" % serial[0]] = h
            elif op[2] == 2:
                import builtins
                setattr(builtins, "h%d" % serial[0], h)
            else:
                held.append(h)
            del h
        elif o == "iter":
            x = pick(op[1])
            it = reversed(x) if op[2] else iter(x)
            for _ in range(op[3]):
                next(it, None)
            ns.setdefault("its", []).append((it, x))       # lists' iterators let go of them when finished, others need not
            if op[4]:
                ns.setdefault("maps", []).append(zip(it, map(len, [x])))
        elif o == "view":
            ns.setdefault("views", []).append(pick(op[1]))
            if not lists:
                try:
                    ns["views"].append(memoryview(pick(op[1])))
                except TypeError:
                    pass
        elif o == "generator":
            def gen(x):
                try:
                    for v in x:
                        yield v
                finally:
                    event("generator", len(x))
            g = gen(pick(op[1]))
            next(g, None)
            ns.setdefault("gens", []).append(g)
            del g
        elif o == "store":
            x = pick(op[1])
            w = op[2]
            if w == "global":
                ns["x%d" % len(ns)] = x
            elif w == "builtins":
                import builtins
                builtins.pfu = x
            elif w == "sys":
                sys.pfu = x
            elif w == "module":
                if lists:
                    sys.modules.setdefault("pyfastutil.ints", type(sys)("pyfastutil.ints")).pfu = x
                else:
                    import pyfastutil.ints
                    pyfastutil.ints.pfu = x
            elif w == "class":
                ns["K%d" % len(ns)] = type("K", (), {"x": x, "default": lambda self, x=x: x})
            elif w == "modules":
                sys.modules["pfu"] = x
            elif w == "type":
                Tracked.x = x
            elif w == "thread":
                import threading
                if "local" not in ns:
                    ns["local"] = threading.local()
                ns["local"].x = x
            elif w == "context":
                import contextvars
                v = contextvars.ContextVar("v")
                v.set(x)
                ns["var%d" % len(ns)] = v
            elif w == "frame":
                held.append(x)
            elif w == "method":
                ns["m%d" % len(ns)] = x.append
                ns.setdefault("ms", []).append([x.pop, x.__len__, x.sort])
            elif w == "exception":
                def fail(x=x):
                    raise ValueError(x)
                try:
                    fail()
                except ValueError as e:
                    ns["e%d" % len(ns)] = e
            elif w == "weak":
                import weakref
                if type(x).__name__ == "Sub":
                    ns["w%d" % len(ns)] = weakref.ref(x, lambda r, event=event: event("weakref"))
            elif w == "finalize":
                import weakref
                if type(x).__name__ == "Sub":
                    weakref.finalize(x, event, "finalize", op[1])
        elif o == "atexit":
            import atexit

            def at(x=pick(op[1]), what=op[2]):
                if what == 0:
                    x.append(1)
                elif what == 1:
                    x.reverse()
                elif what == 2:
                    x.clear()
                elif what == 3:
                    x.extend([1, 2, 3])
                event("atexit", what, len(x), plain(x))
            atexit.register(at)
            del at
        elif o == "daemon":
            import threading
            sys.setswitchinterval(1e-6 * op[3])
            threading.Thread(target=daemon, args=(cls(op[1]), op[1] in INTS, op[2]), daemon=True).start()
        elif o == "drop":
            objs.pop(op[1] % len(objs))
        elif o == "gc":
            import gc
            {"collect": gc.collect, "disable": gc.disable, "freeze": gc.freeze, "enable": gc.enable}[op[1]]()
        elif o == "use":
            x = pick(op[1])
            event("use", len(x), plain(x))
        elif o == "fork":
            pid = os.fork()
            if pid == 0:
                x = pick(op[1])
                if op[2]:
                    x.append(7)
                    x.reverse()
                event("child", len(x), plain(x))
                signal.alarm(LIMIT - 2)
                break
            _, status = os.waitpid(pid, 0)
            event("forked", status)
    event("end of program", len(objs))
    if job["keep"]:
        ns["objs"] = objs
    x = it = C = y = None
    end = job["end"]
    if end == "exit":
        sys.exit(5)
    if end == "hard":
        import time
        time.sleep(0.001)
        os._exit(7)
    if end == "raise":
        ns["held"] = held
        raise KeyError("the end")
    if end == "thread":
        import threading

        def late(objs=objs):
            import time
            time.sleep(0.002)
            event("thread", [len(x[1]) for x in objs])
        threading.Thread(target=late).start()
    elif end == "sleep":
        import time
        time.sleep(0.003)
    elif end == "hook":
        sys.excepthook = lambda t, v, tb, held=held, event=event, len=len: event("hook", len(held))
        raise ValueError(held)


if __name__ == "__main__":
    job = serve()
    program(job, globals())
