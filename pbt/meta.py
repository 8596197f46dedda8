"""What the parent needs to know of each check (it must not import the
library under test itself: that may crash)."""

CHECKS = {
    "C01": dict(
        variants=[("plain", 1)], quick=2600, thorough=60000,
        rule="A case is a class, a way to build it, and a sequence of list operations run on the container and on a "
             "Python list; return values, exceptions and contents are compared after every step (or only at the end). "
             "Non-trivial: at least two mutations took effect."),
    "C02": dict(
        variants=[("plain", 1)], quick=9000, thorough=300000,
        rule="A case is a class, a way to write, and up to nine values; they are read back in twelve ways and checked "
             "for value and well-formedness. Enumerated: every power of two +-2 in every class by every way to write. "
             "Non-trivial: some value lies outside CPython's cached small ints."),
    "C03": dict(
        variants=[("plain", 1)], quick=6000, thorough=60000,
        rule="A case is a class, a sequence (explicit, runs, pseudo-random, 0 to 12000 elements), an element type, a key, a "
             "reverse flag and possibly a fault (exception or modification) at the k-th callback; the result is compared "
             "by identity with list.sort. Enumerated: all sequences over three values up to length 6, and every length "
             "around every threshold. Non-trivial: the order changed, or a fault fired."),
    "C04": dict(
        variants=[("plain", 1)], quick=6000, thorough=150000,
        rule="A case is a container, a right operand derived from it by edits (cut, add, change one element, change its type) "
             "as a list, list subclass or any of the containers, compared with all six operators in both orders against the "
             "equivalent lists; elements include NaN, objects equal to nothing or everything, and failing comparisons. "
             "Enumerated: all pairs over {0,1} up to length 3 in all pairings. Non-trivial: neither operand is empty."),
    "C05": dict(
        variants=[("plain", 1)], quick=4000, thorough=150000,
        rule="A case is a container and up to 12 searches (in, count, index with bounds, remove) for needles that are present, "
             "equal to an element but another object, absent, of another type or out of range; results against list. "
             "Enumerated: all bounds for lists up to 4 elements, a single match at every position of longer ones. "
             "Non-trivial: some search in a non-empty list succeeded."),
    "C06": dict(
        variants=[("plain", 1)], quick=4000, thorough=150000,
        rule="A case is a container and up to 10 of +, *, reflected *, +=, *= (with all operand kinds, itself, refused and "
             "impossible operands); results, identity, operands and all earlier results are checked after each step. "
             "Non-trivial: at least one operation combined non-empty content."),
    "C07": dict(
        variants=[("plain", 1)], quick=1300, thorough=100000,
        rule="A case is a container and up to 14 index or slice reads, assignments and deletions (also through __index__ "
             "objects), each compared with list, the whole content after each. Enumerated: every start, stop and thirteen "
             "steps for every length up to 6 (thorough: 9), for reading and deleting, and assignments of 0 to 8 items and of "
             "the container itself. Non-trivial: some operation met a non-empty container."),
    "C08": dict(
        variants=[("plain", 1)], quick=3500, thorough=120000,
        rule="A case is a from_range triple compared with range(), a constructor or __init__ call with an expected size (possible or not), or a history: a container built from some iterable, "
             "derivations (copy, to_list, slices, constructors, ...) and mutations of any of the objects, all of which are "
             "compared with lists after each step. Non-trivial: more than one element, or a mutation while another object "
             "derived from the same content is alive."),
    "C10": dict(
        variants=[("plain", 1)], quick=3500, thorough=150000,
        rule="A case is a container and up to 12 operations, most of which have to fail (values that are no storable ints, bad "
             "indices, iterables that fail or lie, wrong argument counts and keywords, impossible sizes, failing keys); each "
             "has to raise something other than SystemError and leave the content as before (extend and += may keep a prefix); where code of the "
             "caller raises (46 places, 22 classes of exceptions), that very exception object has to come out. "
             "Enumerated: every failing operation on containers of 0, 1, 2, 9 and 40 elements. Non-trivial: something raised."),
    "C09": dict(
        variants=[("plain", 1)], quick=6000, thorough=150000,
        rule="A case is a container, up to six live forward and reverse iterators, and up to 24 steps: advancing, draining, "
             "dropping iterators, dropping the container, and mutations; or a for loop whose body mutates the container. Each "
             "next() is compared with that of a list iterator. Enumerated: every one or two modifications at every point of "
             "iterations over up to 4 elements. Non-trivial: an iterator was advanced after a modification."),
    "C11": dict(
        variants=[("plain", 1)], quick=3000, thorough=100000,
        rule="A case is an object container over a small pool of private objects and up to 14 operations, failing operations, "
             "held results and iterators; after each step every pool object's reference count has to be the initial one plus "
             "two for each position it occupies in the model (one there, one in the container). Enumerated: all pairs of "
             "operations on 0, 1, 2 and 5 elements. Non-trivial: elements were in the container at the end."),
    "C12": dict(
        variants=[("asan", 1)], quick=4000, thorough=120000,
        rule="A case (run under AddressSanitizer) is a container, live iterators, a plan that makes the n-th call of some "
             "callback (comparison, finaliser, __index__, key, repr, next, length hint, ...) modify or drop the container, and "
             "up to 8 operations; or a plain, iterator or failing-operation history of C01, C09, C10. Judged: survival, "
             "AddressSanitizer, no SystemError, a consistent container of living elements. Enumerated: every operation with "
             "every callback and ten actions. Non-trivial: a callback acted (or the history itself is non-trivial)."),
    "C13": dict(
        variants=[("plain", 0.5), ("asan", 0.5)], quick=1700, thorough=80000,
        rule="A case (half of them under AddressSanitizer) is an int array list, up to eight live memoryviews, slices of them and numpy arrays "
             "over it, and up to 14 steps that write through either side (items, reverse, sort, numpy in-place operations, readinto), release "
             "views or, without views, change the length; at the end the list is dropped while views live on. After each step format, "
             "itemsize, shape, strides and elements of every view are compared with the model. Non-trivial: something was written while a view "
             "existed."),
    "C14": dict(
        variants=[("plain", 0.5), ("asan", 0.5)], quick=2500, thorough=80000,
        rule="A case (half of them under AddressSanitizer) is an array list, possibly preallocated, and up to 16 steps, half of them resizes "
             "(absolute, relative, refused), the others any mutation; contents, buffer bytes and reference counts of the elements are "
             "compared with the model after each. Enumerated: all pairs of sizes below 12 (thorough: 24), sizes around powers of two up to "
             "100003. Non-trivial: a resize grew the list after earlier elements had been removed or overwritten."),
    "C15": dict(
        variants=[("plain", 0.5), ("asan", 0.5)], quick=2500, thorough=80000, trusts="a shadow copy of memory read through ctypes",
        technique="property-based testing: Hypothesis-generated allocation and access sequences against a byte-exact shadow memory",
        rule="A case (half of them under AddressSanitizer) is up to 20 steps of malloc, calloc, aligned_malloc, realloc, free, set, get, memcpy, "
             "memset and calls that must be refused, at generated offsets and lengths in live blocks and in an arena with guard bytes; after each "
             "step every byte of every live block and of the arena is compared with a shadow copy, new blocks must be disjoint, aligned and "
             "zeroed or preserved. Enumerated: every length up to 140 (thorough 400) at several offsets, every size with every alignment. "
             "Non-trivial: at least one step wrote memory and there was more than one step."),
    "C16": dict(
        variants=[("plain", 0.5), ("asan", 0.5)], quick=2500, thorough=80000, trusts="ctypes callbacks, sys.getrefcount and a shadow copy of memory",
        technique="property-based testing: Hypothesis-generated call and reference histories against ctypes and sys.getrefcount",
        rule="A case is up to 16 steps of callVoid/callInt/callLongLong/call on callbacks that return a generated value or pointer (sizes 0 to "
             "3000, any alignment of source and destination), get_address/as_object/incref/decref/refcnt on nine objects, and calls that must be "
             "refused; the number of invocations, the result, all bytes around it and every reference count are checked after each step. "
             "Enumerated: every size up to 600 (thorough 4000) in eight alignments. Non-trivial: a function was called, or three or more "
             "reference operations."),
    "C17": dict(
        variants=[("plain", 0.5), ("asan", 0.5)], quick=2500, thorough=150000, trusts="a byte-exact model over memory read through ctypes",
        technique="property-based testing: Hypothesis-generated calls against a byte-exact memory model",
        rule="A case is an element type, one of memcpyX, memcpyXAligned, reverseX or wrong calls, and up to 8 (count, source offset, destination "
             "offset, content); the memory of source, destination and at least 256 bytes around them is compared with the model. Offsets are "
             "whole elements. Enumerated: for each of the 29 types every count up to five (thorough: twenty) AVX-512 vectors and every offset. "
             "Non-trivial: more than one element was moved."),
    "C18": dict(
        variants=[("plain", 0.5), ("asan", 0.5)], quick=1800, thorough=150000, trusts="a byte-exact model over memory read through ctypes",
        technique="property-based testing: Hypothesis-generated lane values against a byte-exact memory model",
        rule="A case is one of the six setters and up to four calls: every lane from the whole lane range (boundaries over-weighted), plain ints "
             "or int subclasses, at sixteen addresses, or a wrong value at one lane, a wrong count or pointer; 1 KB around the vector is compared. "
             "Enumerated: each lane alone with six values, every wrong value at every lane, every count, all 8-bit values. Non-trivial: a vector "
             "was stored."),
    "C19": dict(
        variants=[("plain", 1)], quick=6000, thorough=400000, prepare="pbt.oracle19",
        trusts="the compiler's own intrinsics, called directly from C",
        technique="property-based testing: Hypothesis-generated operands, differential against the intrinsics called from C",
        rule="A case is one of the 892 bound methods and an operand for each parameter (15 kinds of vector content: random bits, boundary "
             "lanes of 1 to 8 bytes, special floats, small counts, near copies of another operand), the result possibly in the place of an "
             "operand, memory operands at any offset; run on one arena by the method and on another by the intrinsic, which must end equal. Or "
             "a wrong number of arguments, or one of the 491 methods that are documented as unsupported. Enumerated: every method with 32 operand combinations "
             "and every wrong argument count. Non-trivial: the intrinsic has operands."),
    "C20": dict(
        variants=[("plain", 1)], quick=120, thorough=6000, trusts="CPython's interpreter lock, and list for the expected contents",
        technique="property-based testing: Hypothesis-generated programs of concurrent threads, snapshots and final contents checked against the possible ones",
        rule="A case is a container of up to 300000 elements, one or two threads that move it between four known contents (reverse, sort, whole "
             "assignment) and one or two that take snapshots in 14 ways, each of which has to be one of these contents; or two to four threads that "
             "add unique elements and take elements out, none of which may be lost, doubled or invented. The schedule is the operating system's, "
             "with the shortest switch interval. Enumerated: every mutator with every kind of snapshot. Non-trivial: snapshots saw more than one "
             "content, or the threads' operations alternated."),
    "C21": dict(
        variants=[("plain", 0.75), ("asan", 0.25)], quick=1500, thorough=100000,
        rule="A case (a quarter of them under AddressSanitizer) is a container with a structure of nested containers, lists, tuples and dicts in it "
             "(any of them may contain those around it), leaves of all kinds (also with failing repr), and up to five mutations; after each, repr, str, "
             "format, ascii, len, bool, to_list and five ways to hash are compared with the same structure made of lists. Some nest up to 300000 deep. "
             "Enumerated: every leaf, every kind of cycle up to depth 3. Non-trivial: more than one element or mutation."),
    "C22": dict(
        variants=[("plain", 0.75), ("asan", 0.25)], quick=500, thorough=30000, trusts="the kernel's pipes and files and CPython's UTF-8 codec",
        technique="property-based testing: Hypothesis-generated texts, read and write histories in forked processes, against the byte stream as the model",
        rule="A case (a quarter of them under AddressSanitizer) is an input text fed through a pipe in pieces of a generated size or from a file, and up "
             "to 14 fgets (sizes 1 to 2**40), fputs, fflush and calls that have to be refused, in a forked process of its own; every line is "
             "compared with the input, every byte of the output after each fflush. Texts contain NULs, characters of every UTF-8 length, and lengths "
             "around buffer sizes. Enumerated: eight buffer sizes with every kind of text. Non-trivial: more than one piece of text was read or written."),
    "C23": dict(
        variants=[("plain", 1)], quick=500, thorough=60000, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"},
        trusts="glibc's mallinfo2 and CPython's count of allocated blocks",
        technique="property-based testing: Hypothesis-generated operation sequences repeated until any leak shows in the allocators' statistics",
        rule="A case is a container and up to 6 operations (any of C01 and C10, views, live iterators, repeated __init__, cycles through the container, "
             "its iterators, its views or its __dict__, callbacks that raise or modify), or a sequence of Unsafe calls that frees what it allocates; it is "
             "run in rounds of 24 with everything dropped and collected, and malloc's bytes in use, Python's block count and the references to heap "
             "types must not grow in each of six rounds. Enumerated: every single operation and every kind of cycle on every class. "
             "Non-trivial: all."),
    "C24": dict(
        variants=[("cpu", 1)], quick=250, thorough=12000,
        trusts="the kernel's /proc/cpuinfo, list and a byte-exact memory model",
        technique="property-based testing: Hypothesis-generated processor features (masked in the CPUID and XGETBV results) and operations, against list and memory models",
        rule="A case is a set of features that the processor or the system lacks (cleared bits of CPUID leaves 1 and 7 and of XCR0, in a build in which "
             "the library's questions go through a mask) and up to six jobs: SIMD copies and reversals of any type, or operations on containers; a "
             "forked process imports the library under that mask. Every isXSupported has to be what the cleared bits leave, every result that of the "
             "model. Enumerated: 176 combinations of the bits that decide, and nine kinds of processor with every type and class. Non-trivial: some "
             "feature is missing."),
    "C25": dict(
        variants=[("plain", 1)], quick=180, thorough=6000,
        trusts="the kernel's accounting of a thread's processor time",
        technique="property-based testing: Hypothesis-generated workloads measured at two sizes (a metamorphic relation between their costs)",
        rule="A case is a class and either a loop of one to three steps of constant cost (70 of them: at the end, at any position of array lists, at "
             "and near both ends of linked lists), or one operation of 45 on a whole container with one of fifteen patterns as its content. It is run at a size n "
             "and at 8 n; the thread's processor time may grow by a factor of 30 at most (proportional growth gives 8 to 12, quadratic 64), the minimum "
             "of up to fifteen measurements counting. Enumerated: every step and operation alone, every sort of every pattern. Non-trivial: all."),
    "C26": dict(
        variants=[("plain", 1)], quick=1200, thorough=40000, prepare="pbt.oomlib",
        trusts="CPython's own handling of failed allocations in the functions the library calls",
        technique="property-based testing with injected faults: Hypothesis-generated containers and operations, every allocation of which is made to fail in turn, against list, exact reference counts and block counts",
        rule="A case is a container (with a history of up to two operations), one operation of 40 and the number of allocations in a row that fail. The operation "
             "is repeated on a fresh container with the first, second, third ... allocation failing (every one of the first 25, then in steps, up to 60), be it "
             "operator new, aligned_alloc, malloc or one of CPython's three allocators, until it no longer asks that often. Each time it has to succeed like a "
             "list's, or raise an exception with the content unchanged (extend and += may keep a prefix, sort any order, __init__ anything), exact reference "
             "counts, a container that goes on working, and no block left when it is dropped; the number of Python objects must not grow with repetitions. "
             "Enumerated: every operation with every kind of source on containers of 0, 1, 3 and 12 elements. Non-trivial: some allocation failed."),
    "C27": dict(
        variants=[("win", .75), ("plain", .25)], quick=350, thorough=30000,
        trusts="the stand-in for the functions of windows.h that change the protection of memory (pbt/native/win), by mprotect",
        technique="property-based testing with injected faults: Hypothesis-generated machine code and histories of run, makeFunction and freeFunction, against an interpreter of that code",
        rule="A case is a history of up to 14 steps, run in a process of its own: run and makeFunction (and their Fast variants) of generated x86-64 code of up to 40 "
             "KB that stores, adds, copies, loops and calls earlier functions, calls and frees of the functions made, arguments of 16 bad kinds for freeFunction and 11 "
             "for code, with the first, second or third change of protection of a step refused. Memory, return values, exceptions, the bytes of every living function, "
             "blocks and page protections are compared after each step. A quarter of the shards run the build without Windows, where everything must be refused. "
             "Enumerated: code of many lengths among up to nine functions, every order of freeing, every bad argument, every refusal. Non-trivial: code was run or refused."),
    "C28": dict(
        variants=[("plain", .75), ("asan", .25)], quick=1800, thorough=80000,
        trusts="the same functions applied to a list",
        technique="property-based testing: Hypothesis-generated histories of generic functions of Python and its C API (called through ctypes), applied to a container and to a list",
        rule="A case is a container (or an instance of a subclass) of up to 60 ints, strings, pairs or mixed objects, and up to twelve calls of 240 functions: 58 of the C API with "
             "any index, slice, comparison or operand, and builtins, operators, special methods and the standard library; the result (or the class of the exception) "
             "and the content are compared with those of a list after each. Enumerated: every function with a grid of arguments on small contents. Non-trivial: the content isn't empty."),
    "C29": dict(
        variants=[("rel", .75), ("plain", .25)], quick=150, thorough=9000,
        trusts="the same program with lists in place of the containers",
        technique="property-based testing: Hypothesis-generated programs, each run as a process of its own with the containers and with lists",
        rule="A case is a program of up to 14 steps (imports and reloads, containers of elements that report their end, cycles, iterators, views, objects that use a "
             "container when they end, references from modules, types, threads, contexts, frames, finalizers, forks, subinterpreters, daemon threads in twelve kinds "
             "of operation) and one of seven ways to end. The wait status, what every finalizer and exit handler reported, and whether anything went to stderr are "
             "compared with those of the program with lists. Enumerated: every container and operation in daemon threads, every place of reference, every end. "
             "Non-trivial: it makes a container."),
    "C30": dict(
        variants=[("plain", 1)], quick=4, thorough=2500, prepare="pbt.hugelib",
        trusts="the allocator of pbt/native/huge.cpp, which gives large blocks the same 12 MB over and over",
        rule="A case is an array list of 2^31 or 2^32 and a few elements and up to 42 operations at positions near its end, near the powers of two and near its start, or "
             "a memory function of Unsafe or SIMD on that many bytes. The model is the length, the common value and the exceptions by place in the period. "
             "Enumerated: the operations that touch everything (copy, to_list, comparison, count, ...) of every array list, every memory function, and one IntArrayList "
             "with memory of its own (8 GB, if there is that much). Non-trivial: more than 2^31 elements or bytes."),
}

LARGE = {
    "C01 C04 C05 C06 C07 C08 C09 C11": "One container or source in forty is large (300 to 100000 elements), and enumerated cases run every operation at the ends, the middle "
                                       "and around them of containers of 601 to 70003 elements (300007 in thorough runs).",
    "C10 C12 C13 C14 C23 C26": "One container or source in forty is large (300 to 100000 elements).",
    "C03": "One source in forty is long, and sequences of up to 131073 and 600001 elements (4000000 in thorough runs) are enumerated.",
    "C15 C16 C17": "Enumerated and one generated case in forty: blocks of up to 1 MB (C17: 40 MB).",
    "C21": "Some containers are repeated up to 6000 times; 9000 and 70000 elements are enumerated.",
}
for _ids, _text in LARGE.items():
    for _id in _ids.split():
        CHECKS[_id]["rule"] += " Large sizes: " + _text[0].lower() + _text[1:]
