"""C oracle for C19: calls every intrinsic directly, with the types that the
compiler's own header declares for it."""
import ctypes
import hashlib
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(HERE, "data", "intrinsics.json")
OUT = os.path.join(os.path.dirname(HERE), "build")
FLAGS = ["-O1", "-fPIC", "-shared", "-w", "-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512vl"]
PARTS = 6


def table():
    with open(DATA) as f:
        return json.load(f)


def bare(t):
    return t.replace("const", "").replace(" ", "").replace("unsignedint", "unsigned int")


def sources():
    bound = table()["bound"]
    out = []
    for part in range(PARTS):
        lines = ["#include <immintrin.h>", 'extern "C" {']
        for i, (name, ret, params) in enumerate(bound):
            if i % PARTS != part:
                continue
            loads, args = [], []
            for k, t in enumerate(params):
                if t.endswith("*"):
                    args.append("(%s) a[%d]" % (t, k))
                else:
                    loads.append("%s p%d = *(%s *) a[%d];" % (t, k, t, k))
                    args.append("p%d" % k)
            call = "%s(%s)" % (name, ", ".join(args))
            body = call + ";" if ret == "void" else "%s r = %s; *(%s *) res = r;" % (ret, call, ret)
            lines.append("__attribute__((visibility(\"default\"))) void o%d(void *res, void **a) { %s %s }" % (i, " ".join(loads), body))
        lines.append("}")
        out.append("\n".join(lines) + "\n")
    return out


def paths():
    srcs = sources()
    key = hashlib.sha256(repr((srcs, FLAGS)).encode()).hexdigest()[:16]
    return srcs, [os.path.join(OUT, "oracle19-%s-%d.so" % (key, i)) for i in range(PARTS)]


def prepare():
    srcs, outs = paths()
    os.makedirs(OUT, exist_ok=True)

    def one(i):
        if os.path.exists(outs[i]):
            return
        src = outs[i] + ".%d.cpp" % os.getpid()
        with open(src, "w") as f:
            f.write(srcs[i])
        tmp = outs[i] + ".%d.tmp" % os.getpid()
        subprocess.run(["g++", *FLAGS, src, "-o", tmp], check=True)
        os.remove(src)
        os.rename(tmp, outs[i])

    with ThreadPoolExecutor(PARTS) as ex:
        list(ex.map(one, range(PARTS)))


def load():
    _, outs = paths()
    libs = [ctypes.CDLL(p) for p in outs]
    fs = []
    for i in range(len(table()["bound"])):
        f = getattr(libs[i % PARTS], "o%d" % i)
        f.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        f.restype = None
        fs.append(f)
    return fs


if __name__ == "__main__":
    prepare()
