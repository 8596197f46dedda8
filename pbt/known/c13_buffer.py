"""Known finding of C13: growing an int array list while a buffer of it is
exported leaves the view on freed memory.  Exits 0 if that no longer happens
(run with the AddressSanitizer build)."""
from pyfastutil.ints import IntArrayList
x = IntArrayList([1, 2, 3])
mv = memoryview(x)
try:
    x.extend(range(1000))
except BufferError:
    raise SystemExit(0)
assert mv[0] == 1
