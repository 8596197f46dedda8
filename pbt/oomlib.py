"""Compiles what makes allocations fail (C26); gives the environment its shards run in."""
import hashlib
import os
import subprocess
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
NATIVE = os.path.join(HERE, "native")
OUT = os.path.join(os.path.dirname(HERE), "build")
FLAGS = ["-std=c++20", "-O2", "-fPIC", "-shared", "-w", "-fvisibility=hidden"]


def prepare():
    os.makedirs(OUT, exist_ok=True)
    outs = []
    for name in ("oom_preload", "oom"):
        src = os.path.join(NATIVE, name + ".cpp")
        with open(src, "rb") as f:
            key = hashlib.sha256(f.read() + repr(FLAGS).encode()).hexdigest()[:16]
        out = os.path.join(OUT, "%s-%s.so" % (name, key))
        if not os.path.exists(out):
            fd, tmp = tempfile.mkstemp(dir=OUT, suffix=".so")
            os.close(fd)
            subprocess.run(["g++", *FLAGS, "-I" + sysconfig.get_paths()["include"], "-o", tmp, src], check=True)
            os.chmod(tmp, 0o755)
            os.replace(tmp, out)
        outs.append(out)
    return {"LD_PRELOAD": outs[0], "PFU_OOM": outs[1]}
