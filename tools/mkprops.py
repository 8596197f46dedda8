"""Writes /verif/properties.jsonl."""
import json, os
I = ["pyfastutil/src/ints/IntArrayList.cpp", "pyfastutil/src/ints/BigIntArrayList.cpp", "pyfastutil/src/ints/IntLinkedList.cpp"]
O = ["pyfastutil/src/objects/ObjectArrayList.cpp", "pyfastutil/src/objects/ObjectLinkedList.cpp"]
IT = ["pyfastutil/src/ints/IntArrayListIter.cpp", "pyfastutil/src/ints/BigIntArrayListIter.cpp", "pyfastutil/src/ints/IntLinkedListIter.cpp",
      "pyfastutil/src/objects/ObjectArrayListIter.cpp", "pyfastutil/src/objects/ObjectLinkedListIter.cpp"]
U = ["pyfastutil/src/utils/PythonUtils.h"]
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


VEC = [("vector / list", "the elements in order", "struct of each container, *.h"), ("modCount", "number of structural changes of a linked list, used by its iterators", "IntLinkedList.h, ObjectLinkedList.h")]

p("C01", "Mutation histories equal those of a list",
  "After any sequence of append, extend, insert, pop, remove, clear, reverse, sort, item and slice assignment or deletion, +=, *= and (array lists) resize, each of the five containers holds exactly the elements, in the order, that a Python list would hold. Every call returns what the list returns, and IndexError and ValueError are raised exactly when the list raises them.",
  ["histories", "inputs"], "every finite sequence of mutating calls with arguments valid for the class, from every starting content, for all five containers",
  "Tests run a few fixed calls on fixed short lists, so an element lost only after a particular combination of size, position and earlier calls is never seen.",
  I + O, [("append/insert/erase on the backing store and index normalisation", "<Class>_append, _insert, _pop, _remove, _extend, _setitem, _setitem_slice, _iadd, _imul, _resize")],
  ["to_list()", "len()", "indexing", "iteration", "return values"], VEC)
p("C02", "Stored integers read back exactly",
  "Every int of the documented range (32-bit for IntArrayList and IntLinkedList, 64-bit for BigIntArrayList) that is stored by any means is read back as a well-formed int of the same value by every means. This holds for negative numbers and at every internal digit and width boundary.",
  ["inputs"], "every value in the element range, every way to write it (constructor, append, insert, extend, item and slice assignment, +=, from_range) and every way to read it (index, iteration, slice, pop, to_list, copy, buffer, repr, comparison, arithmetic on the result)",
  "Tests use a handful of small positive numbers; the int conversions handle CPython's digits by hand, so single values or widths can be wrong.",
  U + I, [("hand-written conversion between C integers and Python ints", "PyFast_FromInt, PyFast_AsInt, PyFast_AsShort, PyFast_AsChar in PythonUtils.h")],
  ["every read path of the int containers", "arithmetic and hashing of the ints read"])
p("C03", "sort orders, permutes, and is stable",
  "sort() of any of the five containers leaves a permutation of the same elements in ascending order, or descending with a true reverse, by the key if one is given, with equal elements kept in their original order, and returns None. It is equal to list.sort for every length and content, calls the key once per element, and if the key or a comparison raises, that exception reaches the caller and no element is lost.",
  ["inputs", "fault_sequences"], "every length (including the thresholds between algorithms), every distribution of elements, every key, reverse flag, and an exception or a modification of the list at any call of the key or comparison",
  "Tests sort a few short lists; algorithm switches at 8, 64 and 5000 elements, merge and galloping paths and failures in the middle need generated inputs.",
  I + O + ["pyfastutil/src/utils/include/CPythonSort.c", "pyfastutil/src/utils/include/TimSort.h", "pyfastutil/src/utils/simd/BitonicSort.cpp"],
  [("std::sort / timsort for ints, CPython's list sort for objects", "<Class>_sort, CPython_sort, tim::timsort")], ["to_list() after sort", "calls of the key function", "exceptions"])
p("C04", "Comparisons are those of lists",
  "==, !=, <, <=, > and >= between a container and a list or any other container decide as the same comparison of the equivalent lists does: lexicographically by the first differing element, then by length, and an element equals itself by identity. Comparing never changes either operand, an exception raised by an element comparison propagates, and a container is never equal to something that is not a sequence. Either of two elements may be asked first.",
  ["inputs"], "every pair of contents (equal, prefix, differing at one position, NaN and otherwise irreflexive elements), all six operators, every pairing of classes in both operand orders",
  "Tests compare a few equal or clearly different lists, mostly with == only.",
  I + O, [("element-wise comparison", "<Class>_compare, <Class>_eq/_ne/_lt/_le/_gt/_ge, X_compareSequence")], ["results of the six operators"])
p("C05", "Membership, index, count and remove find the right element",
  "`in`, index (with optional start and stop), count and remove treat every element as a list does: they find the first, or all, of the elements that are identical or equal to the argument within the given bounds. index and remove raise ValueError exactly if there is none, and remove removes only the first one. Int containers look for ints only: a needle of another type or outside the element range counts as absent or is refused with TypeError or OverflowError; bounds that do not fit in a machine word may raise OverflowError.",
  ["inputs"], "every content, every needle (present, absent, out of the element range, equal but of another type, unequal to itself), every start and stop including negative and huge ones",
  "Tests look up a few present values in short lists of small ints.",
  I + O, [("linear search", "<Class>_contains, _index, _count, _remove; std::find")], ["results and exceptions of in, index, count, remove"])
p("C06", "Concatenation and repetition",
  "x + y, x * n, n * x, x += y and x *= n give exactly the elements that lists would give, for every right operand kind that is accepted (the same class, lists, and any iterable for +=), including x itself and n <= 0. + and * build a new independent container or list and leave the operands unchanged; += and *= change x in place and evaluate to x itself.",
  ["inputs", "histories"], "every pair of contents and repeat count, aliased operands, results used further",
  "Tests add a few short lists once and never look at aliasing, at the operands afterwards, or at the identity of the result.",
  I + O, [("concat and repeat", "<Class>_add, _iadd, _mul, _rmul, _imul")], ["value, type and identity of the results", "operands afterwards"])
p("C07", "Indexing and slicing",
  "Reading, assigning and deleting by any index or slice addresses exactly the positions a list would address: negative and out-of-range indices, omitted, reversed and huge slice bounds, and every nonzero step (for assignment: step 1, elsewhere refused without effect or done like a list). Slice assignment may change the length and may take its items from the container itself; out-of-range single indices raise IndexError and change nothing.",
  ["inputs"], "every (length, index) and (length, start, stop, step) combination, every source of replacement items, followed by reads that reveal the whole content",
  "Tests try a few slices of one list; the interplay of clamping, sign of the step and length changes has thousands of combinations.",
  I + O, [("index normalisation, PySlice_AdjustIndices and range insert/erase", "<Class>_getitem, _getitem_slice, _setitem, _setitem_slice; linked list: at()")], ["values read", "whole content afterwards"])
p("C08", "Construction, copy and conversion",
  "A container built from any iterable (or grown from an expected size), from_range, copy() and to_list() holds exactly the source's elements in order, as range() and list() would give them. The result is independent: changing it, the source, or the returned list never changes the others.",
  ["inputs", "histories"], "every iterable kind (list, tuple, generator, wrong length hints, the containers themselves, subclasses), every range triple including negative steps and extreme bounds, followed by mutations of either side",
  "Tests build from short lists and a few small ranges and rarely mutate source and copy afterwards.",
  I + O, [("constructor fast paths for the same class and for list, generic iteration, range fill", "<Class>_init, _from_range, _copy, _to_list")], ["to_list()", "contents of source and copy after mutations"])
p("C09", "Iteration is exact and survives modification",
  "Iterating forwards yields every element once in order, and reversed() yields them in reverse order; several iterators over one container are independent, an exhausted iterator stays exhausted, and an iterator keeps its container alive. If the container is changed while an iterator is active, the iterator behaves like a list iterator: it goes on at its position in the current content, never returning a removed element's storage or crashing.",
  ["histories"], "every interleaving of next() on several forward and reverse iterators with any mutations of the container, and the container being dropped",
  "Tests iterate over unmodified lists to the end; stale positions and cached nodes show up only in interleavings.",
  IT + I + O, [("index based iterators for arrays; cached node plus modification counter for linked lists", "<Class>Iter_next, _iter, _reversed")], ["values and StopIteration of next()"],
  [("index / curNode / modCount", "position of an iterator and whether its cached node is still valid", "*Iter.h")])
p("C10", "Failed operations change nothing",
  "An operation that raises (wrong type, an integer that does not fit in 64 bits, bad index, missing value, wrong argument count, impossible size, iterable that fails) raises an ordinary Python exception, never SystemError and never a stray success, and the container is afterwards exactly as before, except that extend and += may keep the elements taken before the failure. An exception of any class that the caller's code raises within an operation (an iterator, __index__, a comparison, a key function, a repr) comes out as it is; only a constructor may report a failing conversion as a RuntimeError. The container stays fully usable.",
  ["inputs", "fault_sequences"], "every operation with every kind of bad argument, and iterables or __index__ methods failing at any point, in any state of the container",
  "Tests check a few exception types and do not look at the container afterwards.",
  I + O + U, [("argument conversion with error checks before mutation", "PyFast_AsInt and every method of the containers")], ["exception", "whole content afterwards", "later operations"])
p("C11", "Object containers own their elements exactly once",
  "After any sequence of operations, including failing ones, every element of an ObjectArrayList or ObjectLinkedList is referenced exactly once per position it occupies, plus what the caller holds: none is released early and none is leaked. Dropping the container, its copies, slices and iterators returns all reference counts to their initial values.",
  ["histories", "fault_sequences"], "every sequence of operations on object containers with shared and repeated elements, with results kept or dropped, and with failures injected",
  "Tests never look at reference counts and use immortal small ints and literals.",
  O + IT[3:], [("Py_INCREF on store, Py_DECREF on removal and deallocation", "every method of the object containers and their iterators")], ["sys.getrefcount", "weak references and finalisers"])
p("C12", "No memory error under reentrant callbacks",
  "No use of the containers from Python code can make them read or write freed or foreign memory or crash the interpreter. This includes element comparisons, finalisers, __index__, key functions and iterators that modify or drop the container while it is being worked on.",
  ["histories", "inputs"], "every sequence of operations, with callbacks that modify the same container in the middle of an operation",
  "Memory errors are invisible to ordinary tests, and none of them uses callbacks that touch the container.",
  I + O + IT, [("holding references and re-validating positions around calls into Python", "<Class>_index/_contains/_count/_remove/_sort/_setitem_slice, iterators")], ["AddressSanitizer", "process survival", "element multiset afterwards"])
p("C13", "Buffer views show the live elements",
  "A memoryview or numpy array over an IntArrayList or BigIntArrayList has the element width, signed format, shape, strides and the exact elements of the list, and writes through either side are seen by the other. The view keeps the storage alive after the list itself is dropped.",
  ["inputs", "histories"], "every content and length including 0, every in-place modification (item assignment, reverse, sort) made through either side while a view exists, several views at once",
  "Tests make one view of one short list.",
  I[:2], [("Py_buffer export", "IntArrayList_getbuffer / BigIntArrayList_getbuffer")], ["memoryview", "numpy.asarray"])
p("C14", "resize fills and truncates",
  "resize(n) of an array list keeps the first min(n, len) elements and fills up with 0 (int lists) or None (object list) to exactly n elements, whatever the list held earlier or had preallocated; negative or impossible sizes are refused without effect.",
  ["histories", "inputs"], "every history of growth, shrinking and other mutations before and after a resize, every size",
  "Tests resize one short list up and down once; stale content shows only in storage reused after shrinking.",
  I[:2] + O[:1], [("vector resize with an explicit fill value", "<Class>_resize")], ["to_list() and len() after resize", "reference counts of the object list"])
p("C15", "Unsafe memory operations touch exactly the addressed bytes",
  "malloc, calloc, realloc and aligned_malloc return usable, disjoint blocks (zeroed for calloc, content kept by realloc, aligned as asked), and set, get, memcpy and memset read or write exactly the addressed bytes with exactly the given values. Every byte outside stays as it was.",
  ["histories", "inputs"], "every sequence of allocations, frees, reads and writes at any offset and length within live blocks",
  "Tests allocate one block and write once.",
  ["pyfastutil/src/unsafe/Unsafe.cpp", "pyfastutil/src/utils/memory/AlignedAllocator.h"], [("thin wrappers over libc with argument parsing", "Unsafe_malloc ... Unsafe_memset")], ["get()", "ctypes reads of the same memory"])
p("C16", "Unsafe object and function access",
  "get_address and as_object are inverse and leave reference counts balanced, incref and decref change the count by exactly one and refcnt reports it, and callVoid, callInt, callLongLong and call invoke the function exactly once and deliver its full result in the width asked for.",
  ["inputs", "histories"], "every object, every sequence of reference operations, every return value and result size",
  "Tests use one object and one function with one result.",
  ["pyfastutil/src/unsafe/Unsafe.cpp", "pyfastutil/src/utils/memory/FastMemcpy.h", "pyfastutil/src/utils/PythonUtils.h"], [("pointer casts, reference counting, copy of the result", "Unsafe_as_object, _incref, _decref, _call*, fast_memcpy")], ["identity", "sys.getrefcount", "result bytes and guard bytes"])
p("C17", "SIMD copy and reverse are exact for every type and length",
  "memcpyX and memcpyXAligned copy exactly count elements of type X, and reverseX reverses exactly count elements in place, for every element type, count and address that is a whole number of elements from an aligned one (the Aligned variants: a multiple of 64). No byte outside the destination range, and none of the source, changes.",
  ["inputs"], "every one of the 29 element types, every count across all vector widths and tails, every misalignment, every content",
  "Tests use a few types with one fixed count each.",
  ["pyfastutil/src/unsafe/SIMD.cpp", "pyfastutil/src/utils/simd/SIMDUtils.h", "pyfastutil/src/utils/include/qreverse.hpp"], [("vector loops by width with scalar tail; qReverse", "simd::simdMemCpy, simdMemCpyAligned, simdReverse, qReverse")], ["whole arena including guard bytes, through ctypes"])
p("C18", "SIMD vector setters store every lane",
  "setAVX512Vector32/16/8 and setAVX2Vector32/16/8 write exactly one vector at the given address whose lanes are the given arguments, the first argument being the highest lane, each truncated to nothing and with its sign kept. Nothing outside the vector changes, and a wrong argument count or type raises and writes nothing.",
  ["inputs"], "every value of every lane, every aligned address, every wrong argument count or type at any position",
  "Tests use one fixed sequence of small positive values.",
  ["pyfastutil/src/unsafe/SIMD.cpp", "pyfastutil/src/utils/PythonUtils.h"], [("argument conversion and _mm*_set_epi*", "SIMD_setAVX512Vector32 ...")], ["bytes of the vector and its surroundings"])
p("C19", "AVX-512 bindings equal the intrinsics they name",
  "Each SIMDLowAVX512 method stores, bit for bit, the result that the intrinsic of the same name gives for the same operands, in the intrinsic's argument order, at the destination and nowhere else. Pointer operands of the intrinsic are passed as the address of a cell that holds the pointer. Undefined bits of a result (casts to a wider vector, undefined_*) are unconstrained. A wrong number of arguments raises TypeError, and a method that needs an immediate operand raises NotImplementedError.",
  ["inputs"], "every bound intrinsic and every operand value (vectors, masks, scalars, memory operands)",
  "Tests touch none of the roughly 1400 bindings except a few with one operand each; a swapped argument, wrong width or wrong intrinsic shows only for distinguishing operands.",
  ["pyfastutil/src/unsafe/SIMDLowAVX512.cpp", "pyfastutil/unsafe/__SIMDLowAVX512Defines.py"], [("one generated wrapper per intrinsic", "SIMDLowAVX512__mm512_*_impl and the method table")], ["destination bytes and guard bytes"])
p("C20", "Sorting and reversing are atomic for other threads",
  "When several Python threads use one container, every operation takes effect as a whole: no element is lost, duplicated or invented, no other thread sees a half-sorted or half-reversed content, and the process does not crash.",
  ["schedules"], "every interleaving of the operations of several threads on one container",
  "Tests are single threaded.",
  I + O, [("operations run with the interpreter lock held", "<Class>_sort, <Class>_reverse")], ["contents seen by concurrent readers", "final multiset"])
p("C21", "Observers report the content",
  "len, bool, repr, str, hash and to_list of every container agree with the list of the same elements: repr and str are the list's (also for nested and self-containing object containers), bool is false exactly when empty, hash raises TypeError, and observing changes nothing.",
  ["inputs"], "every content including nested containers, self-containing containers and elements whose repr raises",
  "Tests print one short list of ints.",
  I + O, [("conversion to a list and delegation", "<Class>_repr, _str, _len, tp_hash")], ["results of len, bool, repr, str, hash, to_list"])
p("C22", "Text written and read by Unsafe is exact",
  "Unsafe.fputs writes exactly the UTF-8 bytes of its argument to standard output in call order, complete after fflush. Unsafe.fgets returns standard input (UTF-8) line by line, in pieces of bufferSize-1 bytes where a line is longer (a little more or less where that would cut a character), without losing or inventing any character, and the empty string at the end.",
  ["inputs", "histories"], "every sequence of texts and every input with every buffer size",
  "Tests capture at most one fixed line.",
  ["pyfastutil/src/unsafe/Unsafe.cpp"], [("C stdio", "Unsafe_fputs, Unsafe_fflush, Unsafe_fgets")], ["bytes on a pipe"])
p("C23", "No operation leaks memory",
  "Repeating any sequence of operations, successful or failing, on containers, iterators, views and Unsafe objects that are dropped afterwards does not grow the memory in use: everything they allocated is released and no Python object stays alive.",
  ["histories", "fault_sequences"], "every sequence of operations, repeated",
  "Leaks are invisible to tests that look at results only.",
  I + O + IT + ["pyfastutil/src/unsafe/Unsafe.cpp"], [("destructors and reference handling on every path", "<Class>_dealloc, Iter_dealloc, error paths")], ["allocator statistics over repetitions"])
p("C24", "Results do not depend on the processor's vector features",
  "isSSE41Supported, isSSSE3Supported, isAVX2Supported and isAVX512Supported of SIMD are True exactly if the processor has the feature and, for AVX2 and AVX-512, the operating system has enabled the registers it needs (XCR0); isArmNeonSupported is False on x86. SIMD copies and reversals and all container operations give the same result at every level of support.",
  ["inputs"], "every combination of missing processor features and register states, every operation that chooses its code by them",
  "Tests run on one machine, on which only the code for its best vector width is ever chosen.",
  ["pyfastutil/src/utils/simd/SIMDHelper.cpp", "pyfastutil/src/utils/simd/SIMDUtils.h", "pyfastutil/src/utils/include/qreverse.hpp", "pyfastutil/src/unsafe/SIMD.cpp"], [("feature detection at load, dispatch by it", "isAVX2Supported, isAVX512Supported, osSupportsAVX, simd::IS_*_SUPPORTED")], ["isXSupported()", "memory and containers after the operations"])
p("C25", "Costs grow as a list's",
  "The cost of an operation grows with the size of the container as a list's does, or for linked lists as a doubly linked list's: constant (amortised) for len, truth, appending, popping the last element, extending by a few elements, access, assignment and short slices anywhere in an array list and within a fixed distance of either end of a linked list, and inserting and removing there in a linked list; proportional for everything that visits the container once (construction, iteration, copying, comparison, search, repr, slices of any step, assignment and deletion of slices); n log n for sorting, whatever the content.",
  ["histories", "inputs"], "every history of cheap operations, every operation on every content",
  "Tests hold a few elements, or measure nothing.",
  I + O + IT, [("geometric growth; one pass over the elements; sorting algorithm", "<Class>_append, _extend, _iadd, _getitem_slice, _setitem_slice, _eq, _sort, at()")], ["processor time at two sizes"])
p("C26", "Running out of memory is an ordinary failure",
  "If memory cannot be allocated at any point during an operation on a container or iterator, the operation either succeeds nevertheless with its normal result or raises an exception: it never crashes or aborts the process. After the exception the container is as before (extend and += may keep the elements taken so far, sort may leave any order of the same elements, and a failed __init__ any content), reference counts are exact, everything allocated on the way is released, and the container goes on working.",
  ["histories", "fault_sequences"], "every operation, on every content and source, with the failure at every allocation (C++ or CPython's) the operation makes, singly or several in a row",
  "No test makes an allocation fail; the failure has to come at one particular allocation in the middle of an operation.",
  I + O + IT, [("exceptions of operator new turned into Python exceptions, and what was taken before given back", "try/catch blocks of every <Class>_* function, SAFE_DECREF on the error paths")],
  ["exceptions", "to_list()", "reference counts", "allocated blocks"])

p("C27", "ASM runs exactly the code it is given, and functions live until they are freed",
  "Where ASM is supported (Windows), run(code) executes the machine code of a bytes object exactly once, unchanged and completely, and leaves no memory with another protection behind. makeFunction(code) returns the address of a copy of it that is callable, does not overlap any other function and stays intact and executable until it is freed, whatever other code is run, made or freed meanwhile. freeFunction frees exactly that function and raises ValueError for any other address. Arguments of a wrong kind, empty code and refusals by the operating system raise, leave everything as it was, and leave ASM usable. Elsewhere every method raises NotImplementedError.",
  ["histories", "fault_sequences"], "every sequence of runs, makeFunction and freeFunction of code of every length, with a refusal by the operating system at every call",
  "No test uses ASM; on Linux its code isn't even compiled.",
  ["pyfastutil/src/unsafe/ASM.cpp"], [("page protection changed before and restored after", "ASM_run, ASM_runFast, ASM_makeFunction, ASM_freeFunction and their Fast variants"), ("table of functions under a lock", "map, lock in ASM.cpp")],
  ["memory written by the code", "return values of functions", "page protection", "exceptions"])
p("C28", "Python and C code can use the containers as sequences",
  "Whatever function of Python, its standard library or its C API is given a container as a sequence (or mapping, number or iterable) does with it what it does with a list of the same elements: the PySequence, PyMapping, PyNumber and PyObject functions called from C (with every index, also one that is still negative after the length was added), the builtins, operators and special methods, unpacking, string formatting, bisect, heapq, itertools, functools, random, statistics, collections, array and math. Results, the kind of exception and the content afterwards agree. (What needs a real list, and int() and bytes() of int array lists, which have a buffer, are excepted.)",
  ["histories", "inputs"], "every sequence of calls of about 240 generic functions with arguments of every kind, on every content of the five containers and their subclasses",
  "Tests call the methods of the containers directly; generic code enters through other slots and with arguments of other shapes.",
  I + O, [("slots of the types: sequence, mapping, iteration, comparison", "<Class>_asSequence, <Class>_asMapping, <Class>_getitem, _setitem, _len, _contains, _iter")],
  ["results and exceptions of the generic functions", "contents"])
p("C29", "A process that uses the containers ends and cleans up as one that uses lists does",
  "However a program is organised and however it ends, it does so with the containers as with lists in their place: the same exit status, never a signal, an abort or a hang, nothing additional on stderr, and the finalizer of every element, of every instance of a subclass and of everything else that refers to a container runs as often, and can still use the container. That holds for containers in cycles, in modules, types, threads, contexts, frames, exceptions and finalizers, for iterators and views left over, for exit handlers, for daemon threads that are in the middle of an operation (also while that runs Python code), for forked children, and for subinterpreters, repeated imports and reloads of the package.",
  ["histories", "schedules", "crash_points"], "every program, and every moment at which the process ends",
  "Tests run in one process that pytest keeps alive; what happens when it ends, or in another interpreter or child, is seen by none of them.",
  I + O + IT + ["pyfastutil/src/PyFastUtil.cpp", "pyfastutil/src/utils/PythonUtils.h", "pyfastutil/src/utils/include/CPythonSort.c"],
  [("destruction and garbage collection", "<Class>_dealloc, <Class>_traverse, <Class>_clear"), ("initialisation, possibly repeated", "PyInit___pyfastutil, PyInit_<Class>"), ("unwinding of daemon threads passes through", "functions of PythonUtils.h that may run Python code (not noexcept), CPython_sort")],
  ["wait status", "what finalizers, exit handlers and weak references report", "stderr"])

p("C30", "Sizes beyond 31 and 32 bits are handled like any other",
  "An array list may hold more than 2^31 and 2^32 elements: its length, every read, write, insertion, deletion, slice, search, comparison, copy, conversion, repetition, concatenation, resize and buffer then concern exactly the positions they concern in a shorter list, counted in full. The memory functions of Unsafe and SIMD (malloc, calloc, realloc, aligned_malloc, get, set, memset, memcpy, memcpyX, reverseX) treat every byte of regions larger than 2 and 4 GB.",
  ["inputs", "histories"], "every length and position that fits in memory, including those near 2^31 and 2^32 and their negative forms",
  "No test uses a list of more than a few thousand elements; one of 2^31 needs 8 GB and more.",
  ["pyfastutil/src/ints/IntArrayList.cpp", "pyfastutil/src/ints/BigIntArrayList.cpp", "pyfastutil/src/objects/ObjectArrayList.cpp", "pyfastutil/src/unsafe/Unsafe.cpp", "pyfastutil/src/unsafe/SIMD.cpp"],
  [("sizes and positions as Py_ssize_t and size_t", "<Class>_len, _getitem, _setitem, _index, ... , Unsafe_memset, Unsafe_memcpy")], ["len()", "elements at and around the positions", "bytes of the memory"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
