"""Compiles what lets blocks of memory be huge (C30); gives the environment its shards run in."""
import hashlib
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "build")
FLAGS = ["-std=c++20", "-O2", "-fPIC", "-shared", "-w", "-fvisibility=hidden"]


def prepare():
    os.makedirs(OUT, exist_ok=True)
    src = os.path.join(HERE, "native", "huge.cpp")
    with open(src, "rb") as f:
        key = hashlib.sha256(f.read() + repr(FLAGS).encode()).hexdigest()[:16]
    out = os.path.join(OUT, "huge-%s.so" % key)
    if not os.path.exists(out):
        fd, tmp = tempfile.mkstemp(dir=OUT, suffix=".so")
        os.close(fd)
        subprocess.run(["g++", *FLAGS, "-o", tmp, src], check=True)
        os.chmod(tmp, 0o755)
        os.replace(tmp, out)
    return {"LD_PRELOAD": out, "PFU_HUGE": out}
