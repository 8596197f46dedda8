"""Writes /verif/known_findings.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C02 8a9b804 PyFast_FromInt built malformed ints for negative values, zero and values >= 2**30 (IntArrayList([-5])[0], hash/arithmetic wrong)
C18 451f048 PyFast_AsShort and PyFast_AsChar misread negative numbers on Python 3.12 (setAVX512Vector16(ptr, -1, ...))
C03 ae35b46 sort() of 8 or more ints lost and duplicated elements on AVX2/AVX-512 machines
C10 f6039a2 constructor argument errors were dropped and surfaced as SystemError (IntArrayList("x", 1))
C12 df7f5ea int containers read freed memory when an item changed the source list while being converted
C08 e6a28d3 from_range lost the last element of descending ranges and mishandled sys.maxsize bounds
C06 f117a30 += with a container of the same type replaced the variable with None
C06 f8eb16e adding two int containers of the same type always failed
C06 0e15d0d * and *= of int containers wrote out of bounds, used misaligned stores and repeated too often
C20 a4346de sort and reverse changed the container with the GIL released, racing with other threads
C05 0152670 in, count and remove of int containers matched numbers that differ by a multiple of 2**32
C03 c95e93b sort(reverse=...) ignored truthy values other than 1
C03 5dc4aeb sort() swallowed exceptions of keys and comparisons, and crashed when they changed the list
C10 6ee4c96 extend of int array lists aborted the interpreter on an oversized length hint
C10 08cf616 IntLinkedList stored -1 and then failed with SystemError when a value is not an int
C12 ec25030 item assignment of int array lists wrote out of bounds when __index__ shrank the list
C12 ba89d7a IntLinkedList.pop(i) read the node after freeing it
C23 986ba0f IntLinkedList leaked every int it returned from to_list, indexing and slicing
C07 9961fea del of a slice of int containers crashed, and failed slice assignments left garbage behind
C04 4a63e3c comparisons of int containers truncated values, swallowed errors and were not lexicographic
C09 94d7afb iterators of int containers read stale or freed elements after modifications
C12 ce7c123 IntLinkedList crashed when __init__ was never called
C13 9fabdd8 buffers exported by int array lists did not keep the list alive
C11 335b8a8 object containers built from a container of the same type did not own their items
C06 c3bf7ee adding two object containers of the same type always failed
C11 5b4e3f0 extending an object container with itself leaked its items
C10 cf8921d extend of ObjectArrayList aborted the interpreter on an oversized length hint
C11 ce11ac5 object containers leaked replaced items and released removed ones while still in the list
C06 559dae3 *= of object containers repeated too often, leaked on 0, and hung or aborted on huge counts
C05 f2b3145 in, index, count and remove of object containers ignored equal but not identical objects
C04 31410f7 ordering of object containers compared sizes first and stopped after the first item
C11 035c9af slice assignment of object containers leaked or lost references, and del of a slice crashed
C09 69ef784 iterators of object containers read stale or freed elements after modifications
C12 c2bdd2b ObjectLinkedList crashed when __init__ was never called
C21 31eb19e repr of object containers recursed forever on themselves and swallowed the exception of the last item
C16 67cc6f6 Unsafe.as_object returned a borrowed reference as a new one
C22 1ae0909 Unsafe.fgets leaked its buffer and raised at the end of the stream
C18 37fa523 SIMD functions used memory before checking their arguments
C07 18bbd94 indexing a container with something that is no index crashed
C06 07fd0ab extending an instance of a subclass with itself never ended
C17 d99d6aa the types were never readied: getattr(SIMD(), "memcpyInt") failed as long as nothing else had touched the type
C17 3141baa reverseLongDouble swapped the halves of elements handled by AVX2 (SIMD().reverseLongDouble(ptr, 2))
C19 d4d3261 SIMDLowAVX512 took the memory of an int for that of a float (mm512_set1_ps(ptr, 1) stored garbage)
C23 53dd974 object containers in reference cycles were never freed (x = ObjectArrayList(); x.append(x)), and dropping a million nested ones overflowed the stack
C22 afb7711 Unsafe.fputs wrote nothing after a NUL character
C22 0b327e3 Unsafe.fgets lost input that ended inside a character or held a NUL, and misread buffer sizes above 2**31
C23 cb66244 int list iterators (IntArrayList, BigIntArrayList, IntLinkedList) in reference cycles were never freed
C24 17ea0b9 isAVX512Supported did not check that the system enabled the AVX-512 registers (XCR0 without bits 5 to 7)
C25 21d0a93 extend and += of array lists reserved exactly what they needed, so appending n elements by [a] took quadratic time
C25 0b2a1a8 del x[::2] of array lists took quadratic time
C25 9141690 slices of linked lists took quadratic time
C25 6156fb7 comparing two ObjectLinkedLists took quadratic time
C11 b999826 calling __init__ of an array list again leaked its storage and elements
C26 2001d66 extending an integer list aborted the process when memory ran out
C26 9bd0d92 repr of an integer list aborted the process when memory ran out
C26 b068a9d a constructor that ran out of memory leaked its iterable and items
C26 7c3a681 extending an object list aborted the process when memory ran out
C26 3f73b1d deleting a slice of an object list aborted the process when memory ran out
C26 e942bc0 pop of an integer list lost the element when memory ran out
C26 76c22ab sorting an integer list by a key crashed when memory ran out
C26 9e2f44a *= of a linked list kept a part of the repetitions when memory ran out
C26 8d6d4d9 slice assignment of an object list that ran out of memory leaked the items
C26 f300d6c + of object lists dropped references it never took when memory ran out
C25 5aca39a assigning to an extended slice of a linked list searched for each element from an end
C27 698f2e2 freeFunction of an address that is not a function's (or a refusal by the system) kept the lock, so the next call hung for ever
C27 907d323 functions made by ASM shared pages with each other: freeing one made the others not executable, running code left pages executable
C29 a630aca a process that ended while a daemon thread was in sort(key=...) of an int container was aborted (terminate called)
C29 ff07dcb a process that ended while a daemon thread ran Python code (such as an element's __del__) inside a container operation was aborted (terminate called)
C28 86c64da PySequence_GetItem, PySequence_SetItem and PySequence_DelItem with an index of -len-1 to -2*len accessed an element instead of raising IndexError
"""
KNOWN = [
    dict(kind="known", property="C13", variant="asan", script="pbt/known/c13_buffer.py",
         what="growing an IntArrayList (or BigIntArrayList) while a memoryview of it is exported leaves the view on freed memory: "
              "x=IntArrayList([1,2,3]); mv=memoryview(x); x.extend(range(1000)); mv[0]",
         why_not_fixed="refusing (BufferError, as bytearray does) would have to be added to every growing and shrinking method and changes "
                       "calls that succeed today; that is a change of the interface for the maintainer to decide"),
    dict(kind="known", property="C24", variant="plain", script="pbt/known/c24_illegal.py",
         what="on a processor without AVX-512 (such as that of the README's benchmarks) sort() of an IntArrayList dies with an illegal "
              "instruction: all of the library is compiled with -mavx512f/bw/dq/vl, whatever isAVX512Supported() says",
         why_not_fixed="the flags would have to leave setup.py and every function that uses AVX-512 on purpose (SIMDLowAVX512, qReverse, simdMemCpy, "
                       "setAVX512Vector*) to get a target attribute of its own; that is a redesign of the build, not a small patch"),
]
out = list(KNOWN)
for line in FIXED.strip().splitlines():
    pid, commit, what = line.split(" ", 2)
    out.append(dict(kind="fixed", property=pid, commit=commit, what=what, line="fixed: property=%s %s %s" % (pid, commit, what)))
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump(dict(findings=out), f, indent=1)
    f.write("\n")
print(len(out))
