"""Builds PyFastUtil from the working tree of /repo into /verif/build/<key>/.

Nothing is written in /repo.  The result is a directory that contains a
package "pyfastutil": the Python files of /repo plus a freshly linked
__pyfastutil.so.  The key is a hash of every input, so a build is reused
only for an identical tree.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PFU_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
NATIVE = os.path.join(HERE, "native")

PYINC = "/usr/include/python3.12"
if not os.path.isdir(PYINC):
    PYINC = sysconfig.get_paths()["include"]

BASE = ["-DNDEBUG", "-fno-strict-overflow", "-fPIC", "-w", "-fvisibility=hidden", "-mavx", "-mavx2", "-mavx512f",
        "-mavx512bw", "-mavx512dq", "-mavx512vl", "-fno-tree-vectorize", "-pthread"]
VARIANTS = {
    # optimisation as in setup.py, without link-time optimisation
    "plain": dict(flags=["-O3"], link=[]),
    # the same with it
    "rel": dict(flags=["-O3", "-flto=auto", "-fno-fat-lto-objects"], link=["-O3", "-flto=auto", "-fpermissive"]),
    # AddressSanitizer.  aligned.h replaces std::aligned_alloc, which glibc
    # accepts for any size but ASan rejects unless the size is a multiple.
    "asan": dict(flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address",
                        "-include", os.path.join(NATIVE, "aligned.h")],
                 link=["-fsanitize=address"]),
    # the processor's features can be masked out through the environment
    "cpu": dict(flags=["-O2", "-include", os.path.join(NATIVE, "cpuid_mask.h")], link=[]),
    # the parts meant for Windows, with a stand-in for windows.h; without them where they need more of it than that
    "win": dict(flags=["-O2", "-DWINNT", "-I" + os.path.join(NATIVE, "win")],
                link=["-Wl,--wrap=aligned_alloc", "-Wl,--wrap=free"],
                extra=[os.path.join(NATIVE, "win", "win.cpp")], fallback=dict(flags=["-O2"], link=[])),
}


class BuildError(Exception):
    pass


def tree_files():
    files = []
    root = os.path.join(REPO, "pyfastutil")
    for d, dirs, names in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for n in sorted(names):
            if n.endswith((".cpp", ".c", ".cc", ".cxx", ".h", ".hpp", ".hh", ".inl", ".inc", ".py")):
                files.append(os.path.join(d, n))
    return files


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in tree_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(fp.read())
    for d, dirs, names in os.walk(NATIVE):
        dirs.sort()
        for f in sorted(names):
            with open(os.path.join(d, f), "rb") as fp:
                h.update(f.encode() + b"\0" + fp.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _run(cmd):
    for attempt in range(2):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            return
        if p.returncode > 0 and b"Killed" not in p.stdout:
            break
    raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))


def compile_tree(dest, flags, link, jobs=8, skip=(), extra_sources=()):
    """Compiles every C/C++ source below pyfastutil/src and links dest."""
    src = os.path.join(REPO, "pyfastutil", "src")
    objdir = dest + ".o"
    os.makedirs(objdir, exist_ok=True)
    work = []
    sources = []
    for f in tree_files():
        if f.startswith(src + os.sep) and f.endswith((".cpp", ".cc", ".cxx", ".c")):
            if os.path.basename(f) not in skip:
                sources.append(f)
    sources += list(extra_sources)
    sources.sort(key=lambda f: -os.path.getsize(f))
    objs = []
    for i, f in enumerate(sources):
        o = os.path.join(objdir, "%d.o" % i)
        objs.append(o)
        common = BASE + flags + ["-I" + src, "-I" + PYINC, "-c", f, "-o", o]
        if f.endswith(".c"):
            work.append(["gcc", *common])
        else:
            work.append(["g++", "-std=c++20", "-fpermissive", *common])
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(_run, work))
    _run(["g++", "-shared", "-pthread", "-o", dest, *objs, *link])
    shutil.rmtree(objdir, ignore_errors=True)


def build(variant="plain"):
    """Returns the directory to put on sys.path."""
    spec = VARIANTS[variant]
    key = "%s-%s" % (variant, tree_hash((variant, BASE, spec["flags"], spec["link"])))
    os.makedirs(OUT, exist_ok=True)
    final = os.path.join(OUT, key)
    with open(os.path.join(OUT, ".lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, "ok")):
            os.utime(final)
            return final
        t0 = time.time()
        shutil.rmtree(final, ignore_errors=True)
        pkg = os.path.join(final, "pyfastutil")
        os.makedirs(os.path.join(pkg, "unsafe"))
        for sub in ("", "unsafe"):
            d = os.path.join(REPO, "pyfastutil", sub)
            for n in os.listdir(d):
                if n.endswith(".py"):
                    shutil.copy(os.path.join(d, n), os.path.join(pkg, sub, n))
        so = os.path.join(pkg, "__pyfastutil.so")
        try:
            compile_tree(so, spec["flags"], spec["link"], extra_sources=spec.get("extra", ()))
        except BuildError:
            if "fallback" not in spec:
                raise
            compile_tree(so, spec["fallback"]["flags"], spec["fallback"]["link"])
        with open(os.path.join(final, "ok"), "w") as f:
            f.write("%.1f\n" % (time.time() - t0))
        # keep the most recent builds only
        olds = sorted((d for d in os.listdir(OUT) if d.startswith(variant + "-") and d != key),
                      key=lambda d: os.path.getmtime(os.path.join(OUT, d)))
        for d in olds[:-2]:
            shutil.rmtree(os.path.join(OUT, d), ignore_errors=True)
    return final


def libasan():
    """What to preload: libasan, and libstdc++ so that libasan finds __cxa_throw."""
    paths = []
    for name in ("libasan.so", "libstdc++.so.6"):
        p = subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True, text=True)
        path = os.path.realpath(p.stdout.strip())
        if not os.path.exists(path):
            raise BuildError(name + " not found")
        paths.append(path)
    return ":".join(paths)


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "asan"]:
        t = time.time()
        print(build(v), "%.1fs" % (time.time() - t))
