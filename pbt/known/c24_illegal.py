"""Known finding of C24: on a processor without AVX-512 the library executes AVX-512 instructions, because all of it is
compiled for AVX-512.  valgrind stands for such a processor (it knows no AVX-512).  Exits 0 if that no longer happens."""
import shutil
import signal
import subprocess
import sys

CODE = """
from pyfastutil.ints import IntArrayList
for n in (5, 6, 12, 33, 100, 300, 6000):
    x = IntArrayList([k * 7919 % 1009 for k in range(n)])
    x.sort()
    x.sort(reverse=True)
"""
v = shutil.which("valgrind")
if v:
    p = subprocess.run([v, "-q", "--tool=none", sys.executable, "-c", CODE], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
    sys.exit(1 if p.returncode in (-signal.SIGILL, 128 + signal.SIGILL) else 0)
