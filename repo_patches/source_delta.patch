From 8a9b80484949f8be9d89f1d083b75e189c27c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 01/69] fix: PyFast_FromInt built malformed ints for negative
 values, zero and values >= 2**30

---
 pyfastutil/src/utils/PythonUtils.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 2f16d17..51df10e 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -147,11 +147,7 @@ static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-#ifdef IS_PYTHON_312_OR_LATER
-    return (PyObject *) _PyLong_FromDigits(value < 0, 1, (digit *) (&value));
-#else
     return PyLong_FromLong(value);
-#endif
 }
 
 
-- 
2.43.0


From 451f0485d3d1a555f6fb956b4e6d714c8a62c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 02/69] fix: PyFast_AsShort and PyFast_AsChar misread negative
 numbers on Python 3.12

---
 pyfastutil/src/utils/PythonUtils.h | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 51df10e..bb5faa6 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -124,26 +124,12 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
 #endif
 }
 
-static __forceinline short PyFast_AsShort(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (short) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (short) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+static __forceinline short PyFast_AsShort(PyObject *obj) noexcept {
+    return (short) PyLong_AsLong(obj);
 }
 
-static __forceinline char PyFast_AsChar(const PyObject *__restrict obj) noexcept {
-    const Py_ssize_t size = Py_SIZE(obj);
-    if (size == 0) {
-        return 0;
-    } else if (size < 0) {
-        return (char) (-(int) *PyLong_DIGITS((PyLongObject *) obj));
-    } else {
-        return (char) *PyLong_DIGITS((PyLongObject *) obj);
-    }
+static __forceinline char PyFast_AsChar(PyObject *obj) noexcept {
+    return (char) PyLong_AsLong(obj);
 }
 
 static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
-- 
2.43.0


From ae35b4622c749c44ba2d24025de7b81ac57e8b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 03/69] fix: sort() of 8 or more ints lost and duplicated
 elements on AVX2/AVX-512 machines

---
 pyfastutil/src/utils/simd/BitonicSort.cpp | 154 ----------------------
 1 file changed, 154 deletions(-)

diff --git a/pyfastutil/src/utils/simd/BitonicSort.cpp b/pyfastutil/src/utils/simd/BitonicSort.cpp
index e7558a7..91f2b96 100644
--- a/pyfastutil/src/utils/simd/BitonicSort.cpp
+++ b/pyfastutil/src/utils/simd/BitonicSort.cpp
@@ -466,7 +466,6 @@ namespace simd {
             return;
         }
 
-#if defined(__arm__) || defined(__arm64__)
         if (size > 5000) {
             if (reverse) {
                 gfx::timsort(begin, end, std::greater<>());
@@ -480,82 +479,6 @@ namespace simd {
                 std::sort(begin, end);
             }
         }
-#else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
-            } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_INTS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_INTS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_INTS <= size; sortedCount += AVX512_INTS) {
-                if (size - sortedCount > AVX512_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_INT);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_INTS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_INTS <= size; sortedCount += AVX2_INTS) {
-                if (size - sortedCount > AVX2_PREFETCH_INT) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_INT);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
-            }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
-            if (reverse) {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end,
-                          std::greater<>());
-            } else {
-                std::sort(begin + static_cast<std::vector<int>::difference_type>(sortedCount), end);
-            }
-        }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
-#endif
     }
 
     /**
@@ -579,7 +502,6 @@ namespace simd {
             return;
         }
 
-#if defined(__arm__) || defined(__arm64__)
         if (size > 5000) {
             if (reverse) {
                 gfx::timsort(begin, end, std::greater<>());
@@ -593,81 +515,5 @@ namespace simd {
                 std::sort(begin, end);
             }
         }
-#else
-        if (!IS_AVX2_SUPPORTED && !IS_AVX512_SUPPORTED) {
-            // fallback
-            if (size > 5000) {
-                if (reverse) {
-                    gfx::timsort(begin, end, std::greater<>());
-                } else {
-                    gfx::timsort(begin, end);
-                }
-            } else {
-                if (reverse) {
-                    std::sort(begin, end, std::greater<>());
-                } else {
-                    std::sort(begin, end);
-                }
-            }
-            return;
-        }
-
-        // get pointer to do simd
-        auto *data = &(*begin);
-        size_t sortedCount = 0;
-        size_t minBlockSize = AVX512_LONG_LONGS;
-
-        if (IS_AVX512_SUPPORTED && sortedCount + AVX512_LONG_LONGS < size) {
-            // simd sort with avx512
-            prefetchL1(avx512Marks);
-            for (; sortedCount + AVX512_LONG_LONGS <= size; sortedCount += AVX512_LONG_LONGS) {
-                if (size - sortedCount > AVX512_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX512_PREFETCH_LONG_LONG);
-                }
-
-                __m512i vec = _mm512_load_si512(data + sortedCount);  // load
-                if (reverse) {  // sort
-                    sort16Epi32AVX512Reversed(vec);
-                } else {
-                    sort16Epi32AVX512(vec);
-                }
-                _mm512_store_si512(data + sortedCount, vec);  // store
-            }
-        }
-
-        if (IS_AVX2_SUPPORTED && sortedCount + AVX2_LONG_LONGS < size) {
-            // simd sort with avx2
-            prefetchL1(avx2Marks);
-            for (; sortedCount + AVX2_LONG_LONGS <= size; sortedCount += AVX2_LONG_LONGS) {
-                if (size - sortedCount > AVX2_PREFETCH_LONG_LONG) {
-                    prefetchL1(data + sortedCount + AVX2_PREFETCH_LONG_LONG);
-                }
-
-                __m256i vec = _mm256_load_si256((__m256i *) (data + sortedCount));  // load
-                if (reverse) {  // sort
-                    sort8Epi32AVX2Reversed(vec);
-                } else {
-                    sort8Epi32AVX2(vec);
-                }
-                _mm256_store_si256((__m256i *) (data + sortedCount), vec);  // store
-            }
-            minBlockSize = 8;
-        }
-
-        if (sortedCount < size) {
-            if (reverse) {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end,
-                          std::greater<>());
-            } else {
-                std::sort(begin + static_cast<std::vector<long long>::difference_type>(sortedCount), end);
-            }
-        }
-
-        // merge all sorted blocks
-        if (reverse)
-            mergeSortedBlocksReversed(vector, minBlockSize);
-        else
-            mergeSortedBlocks(vector, minBlockSize);
-#endif
     }
 }
-- 
2.43.0


From f6039a20d1b379b9a1db31ef276c0a43c61f0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 04/69] fix: constructor argument errors were dropped and
 surfaced as SystemError

---
 pyfastutil/src/ints/BigIntArrayList.cpp    | 12 ++++++++----
 pyfastutil/src/ints/IntArrayList.cpp       | 12 ++++++++----
 pyfastutil/src/objects/ObjectArrayList.cpp | 12 ++++++++----
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index e0f781f..4a9a26c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -20,23 +20,25 @@ static PyTypeObject BigIntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) return false;
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
 static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
@@ -45,7 +47,9 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
 
     // init vector
     try {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 36a2586..4d03147 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -20,23 +20,25 @@ static PyTypeObject IntArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) return false;
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
 static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
@@ -45,7 +47,9 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
 
     // init vector
     try {
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 09ceb8f..00df4b4 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -20,23 +20,25 @@ static PyTypeObject ObjectArrayListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-__forceinline void parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
+__forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIterable, Py_ssize_t &pySize) {
     static constexpr const char *kwlist[] = {"iterable", "exceptSize", nullptr};
 
     PyObject *arg1 = nullptr;
 
     // parse args
     if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|On", const_cast<char **>(kwlist), &arg1, &pySize)) {
-        return;
+        return false;
     }
 
-    if (arg1 == nullptr) return;
+    if (arg1 == nullptr) return true;
 
     if (PyLong_Check(arg1)) {
         pySize = PyLong_AsSsize_t(arg1);
+        if (pySize == -1 && PyErr_Occurred()) return false;
     } else {
         pyIterable = arg1;
     }
+    return true;
 }
 
 static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
@@ -45,7 +47,9 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
 
-    parseArgs(args, kwargs, pyIterable, pySize);
+    if (!parseArgs(args, kwargs, pyIterable, pySize)) {
+        return -1;
+    }
 
     // init vector
     try {
-- 
2.43.0


From df7f5ea0767ef50182f42eeccf712c5422a753db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 05/69] fix: int containers read freed memory when an item
 changed the source list while being converted

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 10 ++++++----
 pyfastutil/src/ints/IntArrayList.cpp    | 10 ++++++----
 pyfastutil/src/ints/IntLinkedList.cpp   | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4a9a26c..90c552e 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -70,10 +70,12 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    long long value = PyLong_AsLongLong(items[i]);
+                // __index__ of an item may change the list
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    PyObject *item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    long long value = PyLong_AsLongLong(item);
+                    Py_DECREF(item);
                     if (PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 4d03147..bdc53e8 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -70,10 +70,12 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
+                // __index__ of an item may change the list
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    PyObject *item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    int value = PyLong_AsLong(item);
+                    Py_DECREF(item);
                     if (PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b7096fa..a7ae7b5 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -48,10 +48,12 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
                     return -1;
                 }
 
-                const auto size = PySequence_Fast_GET_SIZE(fastKeys);
-                auto items = PySequence_Fast_ITEMS(fastKeys);
-                for (Py_ssize_t i = 0; i < size; ++i) {
-                    int value = PyLong_AsLong(items[i]);
+                // __index__ of an item may change the list
+                for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastKeys); ++i) {
+                    PyObject *item = PySequence_Fast_GET_ITEM(fastKeys, i);
+                    Py_INCREF(item);
+                    int value = PyLong_AsLong(item);
+                    Py_DECREF(item);
                     if (PyErr_Occurred()) {
                         SAFE_DECREF(fastKeys);
                         PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
-- 
2.43.0


From e6a28d3d4f856a445782b7cab7bce79378fc3d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 06/69] fix: from_range lost the last element of descending
 ranges and mishandled sys.maxsize bounds

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 6 +++---
 pyfastutil/src/ints/IntArrayList.cpp    | 6 +++---
 pyfastutil/src/ints/IntLinkedList.cpp   | 6 +++---
 pyfastutil/src/utils/PythonUtils.h      | 5 +++--
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 90c552e..0232d0a 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -137,12 +137,12 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = (Py_ssize_t) (((size_t) stop - (size_t) start - 1) / (size_t) step + 1);
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = (Py_ssize_t) (((size_t) start - (size_t) stop - 1) / (0 - (size_t) step) + 1);
         }
 
         list->vector.resize(elements);
@@ -150,7 +150,7 @@ static PyObject *BigIntArrayList_from_range([[maybe_unused]] PyObject *cls, PyOb
         Py_ssize_t current = start;
         for (Py_ssize_t idx = 0; idx < elements; ++idx) {
             list->vector[idx] = static_cast<long long>(current);
-            current += step;
+            current = (Py_ssize_t) ((size_t) current + (size_t) step);
         }
 
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index bdc53e8..1f703ce 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -137,12 +137,12 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = (Py_ssize_t) (((size_t) stop - (size_t) start - 1) / (size_t) step + 1);
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = (Py_ssize_t) (((size_t) start - (size_t) stop - 1) / (0 - (size_t) step) + 1);
         }
 
         list->vector.resize(elements);
@@ -150,7 +150,7 @@ static PyObject *IntArrayList_from_range([[maybe_unused]] PyObject *cls, PyObjec
         Py_ssize_t current = start;
         for (Py_ssize_t idx = 0; idx < elements; ++idx) {
             list->vector[idx] = static_cast<int>(current);
-            current += step;
+            current = (Py_ssize_t) ((size_t) current + (size_t) step);
         }
 
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index a7ae7b5..54f176c 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -115,18 +115,18 @@ static PyObject *IntLinkedList_from_range([[maybe_unused]] PyObject *cls, PyObje
             if (start >= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = (stop - start + step - 1) / step;
+            elements = (Py_ssize_t) (((size_t) stop - (size_t) start - 1) / (size_t) step + 1);
         } else { // step < 0
             if (start <= stop) {
                 return reinterpret_cast<PyObject *>(list);
             }
-            elements = ((start - stop) / (-step));
+            elements = (Py_ssize_t) (((size_t) start - (size_t) stop - 1) / (0 - (size_t) step) + 1);
         }
 
         Py_ssize_t current = start;
         for (Py_ssize_t idx = 0; idx < elements; ++idx) {
             list->list.push_back(static_cast<int>(current));
-            current += step;
+            current = (Py_ssize_t) ((size_t) current + (size_t) step);
         }
 
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index bb5faa6..5cb8768 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -71,11 +71,12 @@ static __forceinline bool PyParse_EvalRange(PyObject *&args,
         return false;
     }
 
-    if (arg2 == PY_SSIZE_T_MAX) {
+    const Py_ssize_t argCount = PyTuple_GET_SIZE(args);
+    if (argCount < 2) {
         start = 0;
         stop = arg1;
         step = 1;
-    } else if (arg3 == PY_SSIZE_T_MAX) {
+    } else if (argCount < 3) {
         start = arg1;
         stop = arg2;
         step = 1;
-- 
2.43.0


From f117a30490a809d28effccb21bab7e3aa2da37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 07/69] fix: += with a container of the same type replaced the
 variable with None

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 3 ++-
 pyfastutil/src/ints/IntArrayList.cpp        | 3 ++-
 pyfastutil/src/ints/IntLinkedList.cpp       | 3 ++-
 pyfastutil/src/objects/ObjectArrayList.cpp  | 3 ++-
 pyfastutil/src/objects/ObjectLinkedList.cpp | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 0232d0a..86c8f4d 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -750,7 +750,8 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     if (Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
         self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
     // python iterable extend
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 1f703ce..cc5f822 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -748,7 +748,8 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     if (Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
         self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
     // python iterable extend
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 54f176c..3b8837c 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -705,7 +705,8 @@ static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     if (Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
         self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
     // python iterable extend
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 00df4b4..4d27a20 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -708,7 +708,8 @@ static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
             Py_INCREF(item);
         }
         self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        Py_RETURN_NONE;
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
     // python iterable extend
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 3143c81..7631c7c 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -621,7 +621,8 @@ static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
             Py_INCREF(item);
         }
         self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        Py_RETURN_NONE;
+        Py_INCREF(pySelf);
+        return pySelf;
     }
 
     // python iterable extend
-- 
2.43.0


From f8eb16ead9987c7910d544aca3215c2200920c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 08/69] fix: adding two int containers of the same type always
 failed

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 4 +++-
 pyfastutil/src/ints/IntArrayList.cpp    | 4 +++-
 pyfastutil/src/ints/IntLinkedList.cpp   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 86c8f4d..ebd0991 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -712,12 +712,14 @@ static PyObject *BigIntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> BigIntArrayList
         auto *value = reinterpret_cast<BigIntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType, pySelf);
+        auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
+        auto *result = Py_CreateObj<BigIntArrayList>(BigIntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->vector = self->vector;
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index cc5f822..79ba59d 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -710,12 +710,14 @@ static PyObject *IntArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> IntArrayList
         auto *value = reinterpret_cast<IntArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType, pySelf);
+        auto *self = reinterpret_cast<IntArrayList *>(pySelf);
+        auto *result = Py_CreateObj<IntArrayList>(IntArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->vector = self->vector;
             result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 3b8837c..fcb2001 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -667,12 +667,14 @@ static PyObject *IntLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> IntLinkedList
         auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType, pySelf);
+        auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
+        auto *result = Py_CreateObj<IntLinkedList>(IntLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
+            result->list = self->list;
             result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
-- 
2.43.0


From 0e15d0df72863a6458d649de3127fe8fdf8e3325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 09/69] fix: * and *= of int containers wrote out of bounds,
 used misaligned stores and repeated too often

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 27 ++++++++++++++++---------
 pyfastutil/src/ints/IntArrayList.cpp    | 27 ++++++++++++++++---------
 pyfastutil/src/ints/IntLinkedList.cpp   | 17 +++++++++++-----
 3 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index ebd0991..de7d570 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -811,13 +811,17 @@ static PyObject *BigIntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize == 0) {
+            return reinterpret_cast<PyObject *>(result);
+        }
+        if (static_cast<size_t>(n) > result->vector.max_size() / selfSize) {
+            throw std::length_error("result of repetition is too long");
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; i < n; ++i) {
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -853,17 +857,20 @@ static PyObject *BigIntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize != 0) {
+                if (static_cast<size_t>(n) > self->vector.max_size() / selfSize) {
+                    throw std::length_error("result of repetition is too long");
+                }
 
-            Py_BEGIN_ALLOW_THREADS
                 self->vector.resize(selfSize * n);
                 for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
+                    simd::simdMemCpy(
                             self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(long long) * i,
+                            self->vector.data() + selfSize * i,
                             selfSize
                     );
                 }
-            Py_END_ALLOW_THREADS
+            }
         }
 
         Py_INCREF(pySelf);
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 79ba59d..bae2dab 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -809,13 +809,17 @@ static PyObject *IntArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         const auto selfSize = self->vector.size();
+        if (selfSize == 0) {
+            return reinterpret_cast<PyObject *>(result);
+        }
+        if (static_cast<size_t>(n) > result->vector.max_size() / selfSize) {
+            throw std::length_error("result of repetition is too long");
+        }
 
-        Py_BEGIN_ALLOW_THREADS
-            result->vector.resize(selfSize * n);
-            for (Py_ssize_t i = 0; i < n; ++i) {
-                simd::simdMemCpyAligned(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
-            }
-        Py_END_ALLOW_THREADS
+        result->vector.resize(selfSize * n);
+        for (Py_ssize_t i = 0; i < n; ++i) {
+            simd::simdMemCpy(self->vector.data(), result->vector.data() + selfSize * i, selfSize);
+        }
 
         return reinterpret_cast<PyObject *>(result);
     } catch (const std::exception &e) {
@@ -851,17 +855,20 @@ static PyObject *IntArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
             self->vector.clear();
         } else {
             const auto selfSize = self->vector.size();
+            if (selfSize != 0) {
+                if (static_cast<size_t>(n) > self->vector.max_size() / selfSize) {
+                    throw std::length_error("result of repetition is too long");
+                }
 
-            Py_BEGIN_ALLOW_THREADS
                 self->vector.resize(selfSize * n);
                 for (Py_ssize_t i = 1; i < n; ++i) {
-                    simd::simdMemCpyAligned(
+                    simd::simdMemCpy(
                             self->vector.data(),
-                            self->vector.data() + selfSize * sizeof(int) * i,
+                            self->vector.data() + selfSize * i,
                             selfSize
                     );
                 }
-            Py_END_ALLOW_THREADS
+            }
         }
 
         Py_INCREF(pySelf);
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index fcb2001..9c4d424 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -753,11 +753,14 @@ static PyObject *IntLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->list.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
+        if (static_cast<size_t>(n) > self->list.max_size() / self->list.size()) {
+            throw std::length_error("result of repetition is too long");
+        }
         for (Py_ssize_t i = 0; i < n; ++i) {
             result->list.insert(result->list.end(), self->list.begin(), self->list.end());
         }
@@ -794,13 +797,17 @@ static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
     try {
         if (n == 0) {
             self->list.clear();
-        } else {
-            const auto begin = self->list.begin();
-            const auto end = self->list.end();
+        } else if (!self->list.empty()) {
+            if (static_cast<size_t>(n) > self->list.max_size() / self->list.size()) {
+                throw std::length_error("result of repetition is too long");
+            }
+            const std::list<int> origin = self->list;
+
             for (Py_ssize_t i = 1; i < n; ++i) {
-                self->list.insert(self->list.end(), begin, end);
+                self->list.insert(self->list.end(), origin.begin(), origin.end());
             }
         }
+        self->modCount++;
 
         Py_INCREF(pySelf);
         return pySelf;
-- 
2.43.0


From a4346ded804195c5bc5285c263fe3496806d2bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 10/69] fix: sort and reverse changed the container with the
 GIL released, racing with other threads

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 8 ++------
 pyfastutil/src/ints/IntArrayList.cpp        | 8 ++------
 pyfastutil/src/ints/IntLinkedList.cpp       | 4 +---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 4 +---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 4 +---
 5 files changed, 7 insertions(+), 21 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index de7d570..a5132ee 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -467,9 +467,7 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     try {
         if (keyFunc == Py_None) {
             // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -916,9 +914,7 @@ static PyObject *BigIntArrayList_reversed(PyObject *pySelf) {
 static PyObject *BigIntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index bae2dab..4bf9404 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -470,9 +470,7 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
     try {
         if (keyFunc == nullptr || keyFunc == Py_None) {
             // simd sort with auto-fallback
-            Py_BEGIN_ALLOW_THREADS
-                simd::simdsort(self->vector, reverse);
-            Py_END_ALLOW_THREADS
+            simd::simdsort(self->vector, reverse);
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
@@ -914,9 +912,7 @@ static PyObject *IntArrayList_reversed(PyObject *pySelf) {
 static PyObject *IntArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 9c4d424..a6d0971 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -852,9 +852,7 @@ static PyObject *IntLinkedList_reversed(PyObject *pySelf) {
 static PyObject *IntLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 4d27a20..c8a842c 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -862,9 +862,7 @@ static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
 static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        simd::simdReverse(self->vector.data(), self->vector.size());
-    Py_END_ALLOW_THREADS
+    simd::simdReverse(self->vector.data(), self->vector.size());
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 7631c7c..1add3ce 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -762,9 +762,7 @@ static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    Py_BEGIN_ALLOW_THREADS
-        std::reverse(self->list.begin(), self->list.end());
-    Py_END_ALLOW_THREADS
+    std::reverse(self->list.begin(), self->list.end());
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 0152670a0a6c2cf30a67b6425bf9aad5a32a37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 11/69] fix: in, count and remove of int containers matched
 numbers that differ by a multiple of 2**32

---
 pyfastutil/src/ints/BigIntArrayList.cpp |  7 ++++---
 pyfastutil/src/ints/IntArrayList.cpp    | 13 +++++++------
 pyfastutil/src/ints/IntLinkedList.cpp   | 11 ++++++-----
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index a5132ee..d2e01e5 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -886,9 +886,10 @@ static int BigIntArrayList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
-    long long value = PyLong_AsLongLong(key);
-    if (PyErr_Occurred()) {
-        return -1;
+    int overflow;
+    long long value = PyLong_AsLongLongAndOverflow(key, &overflow);
+    if (overflow != 0) {
+        return 0;
     }
 
     try {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 4bf9404..d896106 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -384,7 +384,7 @@ static PyObject *IntArrayList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    long value = PyLong_AsLong(object);
     if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
@@ -431,7 +431,7 @@ static PyObject *IntArrayList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntArrayList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    long value = PyLong_AsLong(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
@@ -884,13 +884,14 @@ static int IntArrayList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
-    long value = PyLong_AsLong(key);
-    if (PyErr_Occurred()) {
-        return -1;
+    int overflow;
+    long long value = PyLong_AsLongLongAndOverflow(key, &overflow);
+    if (overflow != 0) {
+        return 0;
     }
 
     try {
-        if (std::find(self->vector.begin(), self->vector.end(), static_cast<int>(value)) != self->vector.end()) {
+        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
             return 1;  // true
         } else {
             return 0;  // false
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index a6d0971..b431363 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -328,7 +328,7 @@ static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    long value = PyLong_AsLong(object);
     if (value == -1 && PyErr_Occurred()) {
         return nullptr;
     }
@@ -376,7 +376,7 @@ static PyObject *IntLinkedList_insert(PyObject *pySelf, PyObject *args) {
 static PyObject *IntLinkedList_remove(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(object);
+    long value = PyLong_AsLong(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
@@ -824,9 +824,10 @@ static int IntLinkedList_contains(PyObject *pySelf, PyObject *key) {
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    int value = PyLong_AsLong(key);
-    if (PyErr_Occurred()) {
-        return -1;
+    int overflow;
+    long long value = PyLong_AsLongLongAndOverflow(key, &overflow);
+    if (overflow != 0) {
+        return 0;
     }
 
     try {
-- 
2.43.0


From c95e93ba6ee59b922f7f14d148cb33e3105ceda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 12/69] fix: sort(reverse=...) ignored truthy values other than
 1

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 2 +-
 pyfastutil/src/ints/IntArrayList.cpp        | 2 +-
 pyfastutil/src/ints/IntLinkedList.cpp       | 2 +-
 pyfastutil/src/objects/ObjectArrayList.cpp  | 2 +-
 pyfastutil/src/objects/ObjectLinkedList.cpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index d2e01e5..91f8c83 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -457,7 +457,7 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index d896106..9bc3e82 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -460,7 +460,7 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b431363..aa546a7 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -406,7 +406,7 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index c8a842c..ee2569f 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -425,7 +425,7 @@ static PyObject *ObjectArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 1add3ce..9a28d46 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -361,7 +361,7 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
     int reverseInt = 0;  // default: false
     static constexpr const char *kwlist[] = {"key", "reverse", nullptr};
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Oi", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|Op", const_cast<char **>(kwlist), &keyFunc, &reverseInt)) {
         return nullptr;
     }
 
-- 
2.43.0


From 5dc4aeb57995cc0f185020be9724db52b59134be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 13/69] fix: sort() swallowed exceptions of keys and
 comparisons, and crashed when they changed the list

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 25 ++++++++++++++++---
 pyfastutil/src/ints/IntArrayList.cpp        | 25 ++++++++++++++++---
 pyfastutil/src/ints/IntLinkedList.cpp       | 27 ++++++++++++++++++---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 22 ++++++++++++++---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 27 ++++++++++++++++-----
 5 files changed, 105 insertions(+), 21 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 91f8c83..9cf10a6 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -471,7 +471,6 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
             auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
@@ -479,17 +478,35 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
             }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyLong_FromLongLong(vecData[i]);
+                pyData[i] = PyLong_FromLongLong(self->vector[i]);
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            // the key function may change this list, so make it temporarily empty like the built-in list
+            auto items = std::move(self->vector);
+            self->vector.clear();
+
+            PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
 
+            PyObject *errType, *errValue, *errTraceback;
+            PyErr_Fetch(&errType, &errValue, &errTraceback);
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyLong_AsLongLong(pyData[i]);
+                items[i] = PyLong_AsLongLong(pyData[i]);
                 Py_DECREF(pyData[i]);
             }
+            PyErr_Restore(errType, errValue, errTraceback);
 
             PyMem_FREE(pyData);
+
+            const bool modified = !self->vector.empty();
+            self->vector = std::move(items);
+            if (result == nullptr) {
+                return nullptr;
+            }
+            Py_DECREF(result);
+            if (modified) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 9bc3e82..57c2c16 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -474,7 +474,6 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
         } else {
             // sort with key function, costs extra memory
             const auto vecSize = self->vector.size();
-            auto vecData = self->vector.data();
             auto **pyData = static_cast<PyObject **>(PyMem_Malloc(sizeof(PyObject *) * vecSize));
             if (pyData == nullptr) {
                 PyErr_NoMemory();
@@ -482,17 +481,35 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
             }
 
             for (size_t i = 0; i < vecSize; ++i) {
-                pyData[i] = PyFast_FromInt(vecData[i]);
+                pyData[i] = PyFast_FromInt(self->vector[i]);
             }
 
-            CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
+            // the key function may change this list, so make it temporarily empty like the built-in list
+            auto items = std::move(self->vector);
+            self->vector.clear();
+
+            PyObject *result = CPython_sort(pyData, static_cast<Py_ssize_t>(vecSize), keyFunc, reverseInt);
 
+            PyObject *errType, *errValue, *errTraceback;
+            PyErr_Fetch(&errType, &errValue, &errTraceback);
             for (size_t i = 0; i < vecSize; ++i) {
-                vecData[i] = PyFast_AsInt(pyData[i]);
+                items[i] = PyFast_AsInt(pyData[i]);
                 Py_DECREF(pyData[i]);
             }
+            PyErr_Restore(errType, errValue, errTraceback);
 
             PyMem_FREE(pyData);
+
+            const bool modified = !self->vector.empty();
+            self->vector = std::move(items);
+            if (result == nullptr) {
+                return nullptr;
+            }
+            Py_DECREF(result);
+            if (modified) {
+                PyErr_SetString(PyExc_ValueError, "list modified during sort");
+                return nullptr;
+            }
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index aa546a7..a7953d4 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -431,18 +431,37 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
             pyData[i] = PyFast_FromInt(*iter);
         }
 
-        CPython_sort(pyData,
-                     static_cast<Py_ssize_t>(vecSize),
-                     keyFunc, reverseInt);
+        // the key function may change this list, so make it temporarily empty like the built-in list
+        auto items = std::move(self->list);
+        self->list.clear();
+        self->modCount++;
+
+        PyObject *result = CPython_sort(pyData,
+                                        static_cast<Py_ssize_t>(vecSize),
+                                        keyFunc, reverseInt);
 
-        iter = self->list.begin();
+        PyObject *errType, *errValue, *errTraceback;
+        PyErr_Fetch(&errType, &errValue, &errTraceback);
+        iter = items.begin();
         for (size_t i = 0; i < vecSize; ++i, ++iter) {
             *iter = PyFast_AsInt(pyData[i]);
             Py_DECREF(pyData[i]);
         }
+        PyErr_Restore(errType, errValue, errTraceback);
 
         PyMem_FREE(pyData);
+
+        const bool modified = !self->list.empty();
+        self->list = std::move(items);
         self->modCount++;
+        if (result == nullptr) {
+            return nullptr;
+        }
+        Py_DECREF(result);
+        if (modified) {
+            PyErr_SetString(PyExc_ValueError, "list modified during sort");
+            return nullptr;
+        }
     }
 
     Py_RETURN_NONE;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index ee2569f..eaed53f 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -430,9 +430,25 @@ static PyObject *ObjectArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
     }
 
     // do sort
-    return CPython_sort(self->vector.data(),
-                        static_cast<Py_ssize_t>(self->vector.size()),
-                        keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    // comparisons may change this list, so make it temporarily empty like the built-in list
+    auto items = std::move(self->vector);
+    self->vector.clear();
+
+    PyObject *result = CPython_sort(items.data(),
+                                    static_cast<Py_ssize_t>(items.size()),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+
+    const auto added = std::move(self->vector);
+    self->vector = std::move(items);
+    if (result != nullptr && !added.empty()) {
+        Py_DECREF(result);
+        result = nullptr;
+        PyErr_SetString(PyExc_ValueError, "list modified during sort");
+    }
+    for (const auto &item: added) {
+        Py_DECREF(item);
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectArrayList_len(PyObject *pySelf) {
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 9a28d46..4046ad1 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -378,19 +378,34 @@ static PyObject *ObjectLinkedList_sort(PyObject *pySelf, PyObject *args, PyObjec
         pyData[i] = *iter;
     }
 
-    CPython_sort(pyData,
-                 static_cast<Py_ssize_t>(vecSize),
-                 keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
+    // comparisons may change this list, so make it temporarily empty like the built-in list
+    auto items = std::move(self->list);
+    self->list.clear();
+    self->modCount++;
+
+    PyObject *result = CPython_sort(pyData,
+                                    static_cast<Py_ssize_t>(vecSize),
+                                    keyFunc == Py_None ? nullptr : keyFunc, reverseInt);
 
-    iter = self->list.begin();
+    iter = items.begin();
     for (size_t i = 0; i < vecSize; ++i, ++iter) {
         *iter = pyData[i];
     }
 
     PyMem_FREE(pyData);
-    self->modCount++;
 
-    Py_RETURN_NONE;
+    const auto added = std::move(self->list);
+    self->list = std::move(items);
+    self->modCount++;
+    if (result != nullptr && !added.empty()) {
+        Py_DECREF(result);
+        result = nullptr;
+        PyErr_SetString(PyExc_ValueError, "list modified during sort");
+    }
+    for (const auto &item: added) {
+        Py_DECREF(item);
+    }
+    return result;
 }
 
 static Py_ssize_t ObjectLinkedList_len(PyObject *pySelf) {
-- 
2.43.0


From 6ee4c96c503f383ddd7349cac09fb40e2c9bb51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 14/69] fix: extend of int array lists aborted the interpreter
 on an oversized length hint

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 70 ++++++++++++++++---------
 pyfastutil/src/ints/IntArrayList.cpp    | 70 ++++++++++++++++---------
 2 files changed, 92 insertions(+), 48 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 9cf10a6..0f41cff 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -268,22 +268,33 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            long long value = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -779,22 +790,33 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        long long value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            long long value = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 57c2c16..26a77ee 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -268,22 +268,33 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
@@ -777,22 +788,33 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
     }
 
-    // do extend
-    PyObject *item;
-    while ((item = PyIter_Next(iter)) != nullptr) {
-        int value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-
-        if (PyErr_Occurred()) {
-            SAFE_DECREF(iter);
-            return nullptr;
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
         }
 
-        self->vector.push_back(value);
+        // do extend
+        PyObject *item;
+        while ((item = PyIter_Next(iter)) != nullptr) {
+            int value = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(iter);
+                return nullptr;
+            }
+
+            self->vector.push_back(value);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     if (PyErr_Occurred()) {
-- 
2.43.0


From 08cf61663fd38fbc2d349e6afecb9cc8efce4a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 15/69] fix: IntLinkedList stored -1 and then failed with
 SystemError when a value is not an int

---
 pyfastutil/src/ints/IntLinkedList.cpp | 31 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index a7953d4..6a38515 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -177,13 +177,13 @@ static PyObject *IntLinkedList_copy(PyObject *pySelf) {
 static PyObject *IntLinkedList_append(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    PyObject *value = object;
+    int value = PyLong_AsLong(object);
     if (PyErr_Occurred()) {
         return nullptr;
     }
 
     try {
-        self->list.push_back(PyLong_AsLong(value));
+        self->list.push_back(value);
         self->modCount++;
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -221,16 +221,17 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     // do extend
     PyObject *item;
     while ((item = PyIter_Next(iter)) != nullptr) {
+        int value = PyLong_AsLong(item);
+        SAFE_DECREF(item);
+
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
-            SAFE_DECREF(item);
             return nullptr;
         }
 
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
+        self->list.push_back(value);
+        self->modCount++;
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -560,12 +561,18 @@ static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
             self->list.erase(iter);
         } else {
-            PyObject *value = pyValue;
+            int value = PyLong_AsLong(pyValue);
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = PyLong_AsLong(value);
+            // __index__ of the value may have changed the list
+            const auto iter = at(self->list, static_cast<size_t>(pyIndex));
+            if (iter == self->list.end()) {
+                PyErr_SetString(PyExc_IndexError, "index out of range.");
+                return -1;
+            }
+            *iter = value;
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -739,14 +746,16 @@ static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     // do extend
     PyObject *item;
     while ((item = PyIter_Next(iter)) != nullptr) {
+        int value = PyLong_AsLong(item);
+        SAFE_DECREF(item);
+
         if (PyErr_Occurred()) {
             SAFE_DECREF(iter);
-            SAFE_DECREF(item);
             return nullptr;
         }
 
-        self->list.push_back(PyLong_AsLong(item));
-        SAFE_DECREF(item);
+        self->list.push_back(value);
+        self->modCount++;
     }
 
     if (PyErr_Occurred()) {
-- 
2.43.0


From ec25030e3ac6674df8a05edadb669d1e51ba5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 16/69] fix: item assignment of int array lists wrote out of
 bounds when __index__ shrank the list

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 5 +++++
 pyfastutil/src/ints/IntArrayList.cpp    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 0f41cff..2a8f5b6 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -621,6 +621,11 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
                 return -1;
             }
 
+            // __index__ of the value may have changed the list
+            if (static_cast<size_t>(pyIndex) >= self->vector.size()) {
+                PyErr_SetString(PyExc_IndexError, "index out of range.");
+                return -1;
+            }
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 26a77ee..ceff51e 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -619,6 +619,11 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
                 return -1;
             }
 
+            // __index__ of the value may have changed the list
+            if (static_cast<size_t>(pyIndex) >= self->vector.size()) {
+                PyErr_SetString(PyExc_IndexError, "index out of range.");
+                return -1;
+            }
             self->vector[static_cast<size_t>(pyIndex)] = value;
         }
     } catch (const std::exception &e) {
-- 
2.43.0


From ba89d7ade5c11f620e9dd41cb5a51c39218183ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 17/69] fix: IntLinkedList.pop(i) read the node after freeing
 it

---
 pyfastutil/src/ints/IntLinkedList.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 6a38515..e0ee0c0 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -278,10 +278,11 @@ static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, cons
         return PyFast_FromInt(popped);
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    const auto iter = at(self->list, index);
+    const auto popped = *iter;
+    self->list.erase(iter);
     self->modCount++;
-    return PyFast_FromInt(*popped);
+    return PyFast_FromInt(popped);
 }
 
 static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
-- 
2.43.0


From 986ba0fbab5c1881cd5f71a3485fd060e69b0cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 18/69] fix: IntLinkedList leaked every int it returned from
 to_list, indexing and slicing

---
 pyfastutil/src/ints/IntLinkedList.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index e0ee0c0..9abdad3 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -149,9 +149,12 @@ static PyObject *IntLinkedList_to_list(PyObject *pySelf) {
     auto iter = self->list.begin();
     for (Py_ssize_t i = 0; i < size; ++i, ++iter) {
         PyObject *item = PyFast_FromInt(*iter);
+        if (item == nullptr) {
+            SAFE_DECREF(result);
+            return nullptr;
+        }
 
         PyList_SET_ITEM(result, i, item);
-        Py_INCREF(item);
     }
 
     return result;
@@ -499,9 +502,7 @@ static PyObject *IntLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
     }
 
     try {
-        PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
-        Py_INCREF(item);
-        return item;
+        return PyFast_FromInt(*at(self->list, static_cast<size_t>(pyIndex)));
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
@@ -534,7 +535,6 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
         Py_ssize_t index = start + i * step;
         PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(index)));
-        Py_INCREF(item);
         if (item == nullptr) {
             SAFE_DECREF(result);
             return nullptr;
-- 
2.43.0


From 9961fea13b65d6ec0e6ad27bdeddd3294bef4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 19/69] fix: del of a slice of int containers crashed, and
 failed slice assignments left garbage behind

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 108 ++++++++++------------
 pyfastutil/src/ints/IntArrayList.cpp    | 108 ++++++++++------------
 pyfastutil/src/ints/IntLinkedList.cpp   | 113 ++++++++++--------------
 3 files changed, 142 insertions(+), 187 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 2a8f5b6..696735b 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -652,89 +652,77 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+    if (value == nullptr) {  // del self[start:stop:step]
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (sliceLength <= 0) {
+            return 0;
+        }
+
+        if (step < 0) {  // erase the same elements from left to right
+            start += (sliceLength - 1) * step;
+            step = -step;
+        }
+
+        if (step == 1) {
+            self->vector.erase(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
+        } else {
+            for (Py_ssize_t i = sliceLength - 1; i >= 0; i--) {
+                self->vector.erase(self->vector.begin() + start + i * step);
+            }
+        }
+        return 0;
+    }
 
     if (!PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    PyObject *item = nullptr;
-    try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+    PyObject *fastItems = PySequence_Fast(value, "can only assign an iterable");
+    if (fastItems == nullptr) {
+        return -1;
+    }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+    try {
+        // convert everything before touching this list: a conversion may fail, or change either list
+        std::vector<long long> items;
+        for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastItems); i++) {
+            PyObject *item = PySequence_Fast_GET_ITEM(fastItems, i);
+            Py_INCREF(item);
+            const long long converted = PyLong_AsLongLong(item);
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(fastItems);
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+            items.push_back(converted);
+        }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
 
+        const auto newLength = static_cast<Py_ssize_t>(items.size());
+        const Py_ssize_t common = std::min(newLength, sliceLength);
+        if (newLength > sliceLength) {  // more elements
+            self->vector.insert(self->vector.begin() + start + common, items.begin() + common, items.end());
+        } else if (newLength < sliceLength) {  // less elements
             self->vector.erase(
-                    self->vector.begin() + start + newLength,
-                    self->vector.begin() + stop
+                self->vector.begin() + start + common,
+                self->vector.begin() + start + sliceLength
             );
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                        self->vector.begin() + start + i,
-                        PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
         }
+        std::copy(items.begin(), items.begin() + common, self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        SAFE_DECREF(fastItems);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(fastItems);
     return 0;
 }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index ceff51e..dc90f86 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -650,89 +650,77 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+    if (value == nullptr) {  // del self[start:stop:step]
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (sliceLength <= 0) {
+            return 0;
+        }
+
+        if (step < 0) {  // erase the same elements from left to right
+            start += (sliceLength - 1) * step;
+            step = -step;
+        }
+
+        if (step == 1) {
+            self->vector.erase(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
+        } else {
+            for (Py_ssize_t i = sliceLength - 1; i >= 0; i--) {
+                self->vector.erase(self->vector.begin() + start + i * step);
+            }
+        }
+        return 0;
+    }
 
     if (!PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    PyObject *item = nullptr;
-    try {
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+    PyObject *fastItems = PySequence_Fast(value, "can only assign an iterable");
+    if (fastItems == nullptr) {
+        return -1;
+    }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+    try {
+        // convert everything before touching this list: a conversion may fail, or change either list
+        std::vector<int> items;
+        for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastItems); i++) {
+            PyObject *item = PySequence_Fast_GET_ITEM(fastItems, i);
+            Py_INCREF(item);
+            const int converted = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(fastItems);
+                return -1;
             }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+            items.push_back(converted);
+        }
 
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
 
+        const auto newLength = static_cast<Py_ssize_t>(items.size());
+        const Py_ssize_t common = std::min(newLength, sliceLength);
+        if (newLength > sliceLength) {  // more elements
+            self->vector.insert(self->vector.begin() + start + common, items.begin() + common, items.end());
+        } else if (newLength < sliceLength) {  // less elements
             self->vector.erase(
-                self->vector.begin() + start + newLength,
-                self->vector.begin() + stop
+                self->vector.begin() + start + common,
+                self->vector.begin() + start + sliceLength
             );
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector[static_cast<size_t>(start + i)] = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                self->vector.insert(
-                    self->vector.begin() + start + i,
-                    PyLong_AsLong(item)
-                );
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
         }
+        std::copy(items.begin(), items.begin() + common, self->vector.begin() + start);
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        SAFE_DECREF(fastItems);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(fastItems);
     return 0;
 }
 
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 9abdad3..985b0be 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -599,93 +599,72 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+    if (value == nullptr) {  // del self[start:stop:step]
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+        if (sliceLength <= 0) {
+            return 0;
+        }
+
+        if (step < 0) {  // erase the same elements from left to right
+            start += (sliceLength - 1) * step;
+            step = -step;
+        }
+
+        auto iter = at(self->list, static_cast<size_t>(start));
+        for (Py_ssize_t i = 0; i < sliceLength; i++) {
+            iter = self->list.erase(iter);
+            if (i + 1 < sliceLength) {
+                std::advance(iter, step - 1);
+            }
+        }
+        self->modCount++;
+        return 0;
+    }
 
     if (!PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
-    try {
-        auto iter = at(self->list, static_cast<size_t>(start));
-
-        if (newLength == sliceLength) {  // only change elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-        } else if (newLength < sliceLength) {  // less elements
-            for (Py_ssize_t i = 0; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-
-                ++iter;
-            }
-
-            auto eraseStart = iter;
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                ++iter;
-            }
-            self->list.erase(eraseStart, iter);
-        } else {  // more elements
-            for (Py_ssize_t i = 0; i < sliceLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-
-                *iter = PyLong_AsLong(item);
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
+    PyObject *fastItems = PySequence_Fast(value, "can only assign an iterable");
+    if (fastItems == nullptr) {
+        return -1;
+    }
 
-                ++iter;
+    try {
+        // convert everything before touching this list: a conversion may fail, or change either list
+        std::list<int> items;
+        for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(fastItems); i++) {
+            PyObject *item = PySequence_Fast_GET_ITEM(fastItems, i);
+            Py_INCREF(item);
+            const int converted = PyLong_AsLong(item);
+            SAFE_DECREF(item);
+            if (PyErr_Occurred()) {
+                SAFE_DECREF(fastItems);
+                return -1;
             }
+            items.push_back(converted);
+        }
 
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                PyObject *item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
 
-                self->list.insert(iter, PyLong_AsLong(item));
-                SAFE_DECREF(item);
-                if (PyErr_Occurred()) {
-                    return -1;
-                }
-            }
-        }
+        auto iter = at(self->list, static_cast<size_t>(start));
+        auto endIter = iter;
+        std::advance(endIter, sliceLength);
+        self->list.splice(self->list.erase(iter, endIter), items);
+        self->modCount++;
     } catch (const std::exception &e) {
+        SAFE_DECREF(fastItems);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(fastItems);
     return 0;
 }
 
-- 
2.43.0


From 4a63e3c9d544bbcd864bcbdac8ec3da2f8ac2730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 20/69] fix: comparisons of int containers truncated values,
 swallowed errors and were not lexicographic

IntLinkedList compared sizes first, le/ge of equal linked lists were False,
items were truncated to 32 bits and conversion errors surfaced as SystemError.
---
 pyfastutil/src/ints/BigIntArrayList.cpp | 114 +++++++--------
 pyfastutil/src/ints/IntArrayList.cpp    | 114 +++++++--------
 pyfastutil/src/ints/IntLinkedList.cpp   | 176 ++++++++++--------------
 pyfastutil/src/utils/PythonUtils.h      |  31 +++++
 4 files changed, 197 insertions(+), 238 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 696735b..8435965 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -958,6 +958,47 @@ static PyObject *BigIntArrayList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
+// lexicographic comparison with any sequence, like the built-in list
+static PyObject *BigIntArrayList_compareSequence(PyObject *pySelf, PyObject *pyValue, int op) {
+    auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
+
+    for (Py_ssize_t i = 0;; ++i) {
+        const Py_ssize_t seqSize = PySequence_Size(pyValue);
+        if (seqSize < 0) return nullptr;
+
+        auto selfSize = static_cast<Py_ssize_t>(self->vector.size());
+        if (selfSize != seqSize && (op == Py_EQ || op == Py_NE)) {
+            Py_RETURN_BOOL(op == Py_NE)
+        }
+        if (i >= selfSize || i >= seqSize) {
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
+        }
+
+        PyObject *item = PySequence_GetItem(pyValue, i);
+        if (item == nullptr) return nullptr;
+
+        // the sequence may have changed this list
+        selfSize = static_cast<Py_ssize_t>(self->vector.size());
+        if (i >= selfSize) {
+            Py_DECREF(item);
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
+        }
+
+        const long long selfValue = self->vector[static_cast<size_t>(i)];
+        int result = PyFast_CompareInt(selfValue, item, Py_EQ);
+        if (result == 1) {
+            Py_DECREF(item);
+            continue;
+        }
+        if (result == 0) {
+            result = PyFast_CompareInt(selfValue, item, op);
+        }
+        Py_DECREF(item);
+        if (result < 0) return nullptr;
+        Py_RETURN_BOOL(result == 1)
+    }
+}
+
 static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *pyValue) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
@@ -976,29 +1017,12 @@ static __forceinline PyObject *BigIntArrayList_eq(PyObject *pySelf, PyObject *py
         Py_RETURN_FALSE;
 
     // for others
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_FALSE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
-            SAFE_DECREF(item);
-            Py_RETURN_FALSE;
-        }
-        SAFE_DECREF(item);
-        if (self_value != other_value)
-            Py_RETURN_FALSE;
-    }
-
-    Py_RETURN_TRUE;
+    return BigIntArrayList_compareSequence(pySelf, pyValue, Py_EQ);
 }
 
 static __forceinline PyObject *BigIntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = BigIntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -1026,18 +1050,7 @@ static __forceinline PyObject *BigIntArrayList_lt(PyObject *pySelf, PyObject *py
     if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
 
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
+    return BigIntArrayList_compareSequence(pySelf, pyValue, Py_LT);
 }
 
 static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -1058,18 +1071,7 @@ static __forceinline PyObject *BigIntArrayList_le(PyObject *pySelf, PyObject *py
     if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
 
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
+    return BigIntArrayList_compareSequence(pySelf, pyValue, Py_LE);
 }
 
 static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -1090,18 +1092,7 @@ static __forceinline PyObject *BigIntArrayList_gt(PyObject *pySelf, PyObject *py
     if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
 
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
+    return BigIntArrayList_compareSequence(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1122,18 +1113,7 @@ static __forceinline PyObject *BigIntArrayList_ge(PyObject *pySelf, PyObject *py
     if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
 
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        long long self_value = self->vector[i];
-        long long other_value = PyLong_AsLongLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
+    return BigIntArrayList_compareSequence(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *BigIntArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index dc90f86..1406fa4 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -956,6 +956,47 @@ static PyObject *IntArrayList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
+// lexicographic comparison with any sequence, like the built-in list
+static PyObject *IntArrayList_compareSequence(PyObject *pySelf, PyObject *pyValue, int op) {
+    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
+
+    for (Py_ssize_t i = 0;; ++i) {
+        const Py_ssize_t seqSize = PySequence_Size(pyValue);
+        if (seqSize < 0) return nullptr;
+
+        auto selfSize = static_cast<Py_ssize_t>(self->vector.size());
+        if (selfSize != seqSize && (op == Py_EQ || op == Py_NE)) {
+            Py_RETURN_BOOL(op == Py_NE)
+        }
+        if (i >= selfSize || i >= seqSize) {
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
+        }
+
+        PyObject *item = PySequence_GetItem(pyValue, i);
+        if (item == nullptr) return nullptr;
+
+        // the sequence may have changed this list
+        selfSize = static_cast<Py_ssize_t>(self->vector.size());
+        if (i >= selfSize) {
+            Py_DECREF(item);
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
+        }
+
+        const long long selfValue = self->vector[static_cast<size_t>(i)];
+        int result = PyFast_CompareInt(selfValue, item, Py_EQ);
+        if (result == 1) {
+            Py_DECREF(item);
+            continue;
+        }
+        if (result == 0) {
+            result = PyFast_CompareInt(selfValue, item, op);
+        }
+        Py_DECREF(item);
+        if (result < 0) return nullptr;
+        Py_RETURN_BOOL(result == 1)
+    }
+}
+
 static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyValue) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
@@ -974,29 +1015,12 @@ static __forceinline PyObject *IntArrayList_eq(PyObject *pySelf, PyObject *pyVal
         Py_RETURN_FALSE;
 
     // for others
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_FALSE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be converted to int
-            SAFE_DECREF(item);
-            Py_RETURN_FALSE;
-        }
-        SAFE_DECREF(item);
-        if (self_value != other_value)
-            Py_RETURN_FALSE;
-    }
-
-    Py_RETURN_TRUE;
+    return IntArrayList_compareSequence(pySelf, pyValue, Py_EQ);
 }
 
 static __forceinline PyObject *IntArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntArrayList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -1024,18 +1048,7 @@ static __forceinline PyObject *IntArrayList_lt(PyObject *pySelf, PyObject *pyVal
     if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
 
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seq_size))
+    return IntArrayList_compareSequence(pySelf, pyValue, Py_LT);
 }
 
 static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -1056,18 +1069,7 @@ static __forceinline PyObject *IntArrayList_le(PyObject *pySelf, PyObject *pyVal
     if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
 
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() <= static_cast<size_t>(seq_size))
+    return IntArrayList_compareSequence(pySelf, pyValue, Py_LE);
 }
 
 static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -1088,18 +1090,7 @@ static __forceinline PyObject *IntArrayList_gt(PyObject *pySelf, PyObject *pyVal
     if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
 
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() > static_cast<size_t>(seq_size))
+    return IntArrayList_compareSequence(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1120,18 +1111,7 @@ static __forceinline PyObject *IntArrayList_ge(PyObject *pySelf, PyObject *pyVal
     if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
 
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    Py_ssize_t min_size = std::min(static_cast<Py_ssize_t>(self->vector.size()), seq_size);
-
-    for (Py_ssize_t i = 0; i < min_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        int self_value = self->vector[i];
-        int other_value = PyLong_AsLong(item);
-        Py_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
-    }
-    Py_RETURN_BOOL(self->vector.size() >= static_cast<size_t>(seq_size))
+    return IntArrayList_compareSequence(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *IntArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 985b0be..1c53064 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -872,39 +872,71 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
+// lexicographic comparison with any sequence, like the built-in list
+static PyObject *IntLinkedList_compareSequence(PyObject *pySelf, PyObject *pyValue, int op) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_FALSE;
-
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = 0;; ++i) {
+        const Py_ssize_t seqSize = PySequence_Size(pyValue);
+        if (seqSize < 0) return nullptr;
+
+        auto selfSize = static_cast<Py_ssize_t>(self->list.size());
+        if (selfSize != seqSize && (op == Py_EQ || op == Py_NE)) {
+            Py_RETURN_BOOL(op == Py_NE)
+        }
+        if (i >= selfSize || i >= seqSize) {
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
+        }
+
         PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
+        if (item == nullptr) return nullptr;
 
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        if (PyErr_Occurred()) {  // can't be convert to int
-            SAFE_DECREF(item);
-            Py_RETURN_FALSE;
+        // the sequence may have changed this list
+        selfSize = static_cast<Py_ssize_t>(self->list.size());
+        if (i >= selfSize) {
+            Py_DECREF(item);
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
         }
 
-        SAFE_DECREF(item);
-        if (self_value != other_value)
-            Py_RETURN_FALSE;
+        if (self->modCount != modCount) {  // the sequence changed this list
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+        const long long selfValue = *iter++;  // never keep a node that a comparison may erase
+        int result = PyFast_CompareInt(selfValue, item, Py_EQ);
+        if (result == 1) {
+            Py_DECREF(item);
+            continue;
+        }
+        if (result == 0) {
+            result = PyFast_CompareInt(selfValue, item, op);
+        }
+        Py_DECREF(item);
+        if (result < 0) return nullptr;
+        Py_RETURN_BOOL(result == 1)
     }
+}
 
-    Py_RETURN_TRUE;
+static __forceinline PyObject *IntLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
+    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
+
+    if (!PySequence_Check(pyValue))
+        Py_RETURN_FALSE;
+
+    if (Py_TYPE(pyValue) == &IntLinkedListType) {
+        // fast compare
+        auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
+        Py_RETURN_BOOL(self->list == value->list)
+    }
+
+    return IntLinkedList_compareSequence(pySelf, pyValue, Py_EQ);
 }
 
 static __forceinline PyObject *IntLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
     PyObject *isEq = IntLinkedList_eq(pySelf, pyValue);
+    if (isEq == nullptr) return nullptr;
     if (PyObject_IsTrue(isEq)) {
         SAFE_DECREF(isEq);
         Py_RETURN_FALSE;
@@ -921,29 +953,13 @@ static __forceinline PyObject *IntLinkedList_lt(PyObject *pySelf, PyObject *pyVa
         Py_RETURN_FALSE;
     }
 
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value < other_value)
+    if (Py_TYPE(pyValue) == &IntLinkedListType) {
+        // fast compare
+        auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
+        Py_RETURN_BOOL(self->list < value->list)
     }
 
-    Py_RETURN_FALSE;
+    return IntLinkedList_compareSequence(pySelf, pyValue, Py_LT);
 }
 
 static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
@@ -953,29 +969,13 @@ static __forceinline PyObject *IntLinkedList_le(PyObject *pySelf, PyObject *pyVa
         Py_RETURN_FALSE;
     }
 
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value <= other_value)
+    if (Py_TYPE(pyValue) == &IntLinkedListType) {
+        // fast compare
+        auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
+        Py_RETURN_BOOL(self->list <= value->list)
     }
 
-    Py_RETURN_FALSE;
+    return IntLinkedList_compareSequence(pySelf, pyValue, Py_LE);
 }
 
 static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
@@ -985,29 +985,13 @@ static __forceinline PyObject *IntLinkedList_gt(PyObject *pySelf, PyObject *pyVa
         Py_RETURN_FALSE;
     }
 
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value > other_value)
+    if (Py_TYPE(pyValue) == &IntLinkedListType) {
+        // fast compare
+        auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
+        Py_RETURN_BOOL(self->list > value->list)
     }
 
-    Py_RETURN_FALSE;
+    return IntLinkedList_compareSequence(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
@@ -1017,29 +1001,13 @@ static __forceinline PyObject *IntLinkedList_ge(PyObject *pySelf, PyObject *pyVa
         Py_RETURN_FALSE;
     }
 
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        int self_value = *iter;
-        int other_value = PyLong_AsLong(item);
-        SAFE_DECREF(item);
-        if (self_value != other_value) Py_RETURN_BOOL(self_value >= other_value)
+    if (Py_TYPE(pyValue) == &IntLinkedListType) {
+        // fast compare
+        auto *value = reinterpret_cast<IntLinkedList *>(pyValue);
+        Py_RETURN_BOOL(self->list >= value->list)
     }
 
-    Py_RETURN_FALSE;
+    return IntLinkedList_compareSequence(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *IntLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 5cb8768..4660a10 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -137,6 +137,37 @@ static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
     return PyLong_FromLong(value);
 }
 
+/**
+ * Evaluate "value op obj" like python does.
+ * @return 1 if true, 0 if false, -1 if an exception is raised
+ */
+static inline int PyFast_CompareInt(const long long value, PyObject *obj, const int op) noexcept {
+    if (LIKELY(PyLong_CheckExact(obj))) {
+        int overflow;
+        const long long other = PyLong_AsLongLongAndOverflow(obj, &overflow);
+        const int diff = overflow != 0 ? -overflow : (value > other) - (value < other);
+        switch (op) {
+            case Py_EQ:
+                return diff == 0;
+            case Py_NE:
+                return diff != 0;
+            case Py_LT:
+                return diff < 0;
+            case Py_LE:
+                return diff <= 0;
+            case Py_GT:
+                return diff > 0;
+            default:
+                return diff >= 0;
+        }
+    }
+
+    PyObject *pyValue = PyLong_FromLongLong(value);
+    if (pyValue == nullptr) return -1;
+    const int result = PyObject_RichCompareBool(pyValue, obj, op);
+    Py_DECREF(pyValue);
+    return result;
+}
 
 // API for native code generator
 [[maybe_unused]] static __forceinline PyObject *PyFast_FromDigits(
-- 
2.43.0


From 94d7afb9eba220729f490255d5d528ac29c5e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 21/69] fix: iterators of int containers read stale or freed
 elements after modifications

The last element of a reversed IntLinkedList iteration was always the last of
the list, shrinking an array list under a reversed iterator read out of bounds,
and exhausted iterators came back to life.
---
 pyfastutil/src/ints/BigIntArrayListIter.cpp | 16 +++--------
 pyfastutil/src/ints/IntArrayListIter.cpp    | 16 +++--------
 pyfastutil/src/ints/IntLinkedList.cpp       |  3 ++
 pyfastutil/src/ints/IntLinkedListIter.cpp   | 31 ++++++---------------
 4 files changed, 19 insertions(+), 47 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 321d759..b13ce93 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -18,7 +18,7 @@ BigIntArrayListIter *BigIntArrayListIter_create(BigIntArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,7 +36,9 @@ static void BigIntArrayListIter_dealloc(BigIntArrayListIter *self) {
 static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<BigIntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    if (self->index >= self->container->vector.size()) {
+        // stay finished, even if the list grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -48,21 +50,11 @@ static PyObject *BigIntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyLong_FromLongLong(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
 
         long long element = self->container->vector[self->index];
         self->index--;
         return PyLong_FromLongLong(element);
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         long long element = self->container->vector[self->index];
         self->index++;
         return PyLong_FromLongLong(element);
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 358eae2..83fcbfe 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -18,7 +18,7 @@ IntArrayListIter *IntArrayListIter_create(IntArrayList *list, bool reversed) {
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,7 +36,9 @@ static void IntArrayListIter_dealloc(IntArrayListIter *self) {
 static PyObject *IntArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    if (self->index >= self->container->vector.size()) {
+        // stay finished, even if the list grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -48,21 +50,11 @@ static PyObject *IntArrayListIter_next(PyObject *pySelf) {
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
 
         int element = self->container->vector[self->index];
         self->index--;
         return PyFast_FromInt(element);
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         int element = self->container->vector[self->index];
         self->index++;
         return PyFast_FromInt(element);
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 1c53064..ce1b1d8 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -561,6 +561,7 @@ static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
             self->list.erase(iter);
+            self->modCount++;
         } else {
             int value = PyLong_AsLong(pyValue);
             if (PyErr_Occurred()) {
@@ -713,6 +714,7 @@ static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     if (Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
         self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+        self->modCount++;
         Py_INCREF(pySelf);
         return pySelf;
     }
@@ -869,6 +871,7 @@ static PyObject *IntLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     self->list.clear();
+    self->modCount++;
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index deff949..cd59b36 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -19,9 +19,9 @@ IntLinkedListIter *IntLinkedListIter_create(IntLinkedList *list, bool reversed)
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = (!list->list.empty()) ? list->list.size() - 1 : SIZE_MAX;
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        instance->cacheIter = at(list->list, instance->index);
     } else {
         instance->index = 0;
         instance->reversed = false;
@@ -42,49 +42,34 @@ static __forceinline void updateCache(IntLinkedListIter *&self) {
         return;
     }
 
-    auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
-    self->cacheIter = newIter;
+    self->cacheIter = at(self->container->list, self->index);
     self->cacheModCount = self->container->modCount;
 }
 
 static PyObject *IntLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<IntLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    if (self->index >= self->container->list.size()) {
+        // stay finished, even if the list grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
+    updateCache(self);
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            int element = *(--self->container->list.end());
+            int element = *self->cacheIter;
             self->index = SIZE_MAX;
             return PyFast_FromInt(element);
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
 
-        updateCache(self);
         int element = *self->cacheIter;
         self->index--;
         self->cacheIter--;
         return PyFast_FromInt(element);
     } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
         int element = *self->cacheIter;
         self->index++;
         self->cacheIter++;
-- 
2.43.0


From ce7c1238bb1d0194acfa7391045d5bdceddbd824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 22/69] fix: IntLinkedList crashed when __init__ was never
 called

---
 pyfastutil/src/ints/IntLinkedList.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index ce1b1d8..9a92671 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -20,9 +20,19 @@ static PyTypeObject IntLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
+static PyObject *IntLinkedList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *pySelf = PyType_GenericNew(type, args, kwargs);
+    if (pySelf == nullptr) return nullptr;
+
+    // a zeroed std::list is not valid, so it must exist even if __init__ is never called
+    auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
+    new(&self->list) std::list<int>();
+    return pySelf;
+}
+
 static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwargs) {
-    new(&self->list) std::list<PyObject *>();
-    self->modCount = 0;
+    self->list.clear();
+    self->modCount++;
 
     PyObject *pyIterable = nullptr;
 
@@ -1134,7 +1144,7 @@ void initializeIntLinkedListType(PyTypeObject &type) {
     type.tp_iter = IntLinkedList_iter;
     type.tp_methods = IntLinkedList_methods;
     type.tp_init = (initproc) IntLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntLinkedList_new;
     type.tp_dealloc = (destructor) IntLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 9fabdd873cf0c730f08464e792adb2cc3f9a1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 23/69] fix: buffers exported by int array lists did not keep
 the list alive

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 4 +++-
 pyfastutil/src/ints/IntArrayList.cpp    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 8435965..b5dd29c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1182,6 +1182,8 @@ static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
+    view->obj = pySelf;  // keep this list alive as long as the view
+    Py_INCREF(pySelf);
     view->format = const_cast<char *>("q");
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(long long));
@@ -1189,7 +1191,7 @@ static int BigIntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe
     view->readonly = 0;
     view->ndim = 1;
     view->shape = &self->shape;
-    view->strides = nullptr;
+    view->strides = &view->itemsize;
     view->suboffsets = nullptr;
     view->internal = nullptr;
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 1406fa4..66731ee 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1180,6 +1180,8 @@ static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_un
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     self->shape = static_cast<Py_ssize_t>(self->vector.size());
+    view->obj = pySelf;  // keep this list alive as long as the view
+    Py_INCREF(pySelf);
     view->format = const_cast<char *>("i");
     view->buf = self->vector.data();
     view->len = static_cast<Py_ssize_t>(self->vector.size() * sizeof(int));
@@ -1187,7 +1189,7 @@ static int IntArrayList_get_buffer(PyObject *pySelf, Py_buffer *view, [[maybe_un
     view->readonly = 0;
     view->ndim = 1;
     view->shape = &self->shape;
-    view->strides = nullptr;
+    view->strides = &view->itemsize;
     view->suboffsets = nullptr;
     view->internal = nullptr;
 
-- 
2.43.0


From 335b8a88a8d06a29e490e081c087894056f29843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 24/69] fix: object containers built from a container of the
 same type did not own their items

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 3 +++
 pyfastutil/src/objects/ObjectLinkedList.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index eaed53f..54dcf6d 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -61,6 +61,9 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
             if (Py_TYPE(pyIterable) == &ObjectArrayListType) {  // ObjectArrayList is a final class
                 auto *iter = reinterpret_cast<ObjectArrayList *>(pyIterable);
                 self->vector = iter->vector;
+                for (const auto &item: self->vector) {
+                    Py_INCREF(item);
+                }
                 return 0;
             }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 4046ad1..fd68f71 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -39,6 +39,9 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
             if (Py_TYPE(pyIterable) == &ObjectLinkedListType) {  // ObjectLinkedList is a final class
                 auto *iter = reinterpret_cast<ObjectLinkedList *>(pyIterable);
                 self->list = iter->list;
+                for (const auto &item: self->list) {
+                    Py_INCREF(item);
+                }
                 return 0;
             }
 
-- 
2.43.0


From c3bf7ee12fe83f72720e630bf49da7e3e0a4052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 25/69] fix: adding two object containers of the same type
 always failed

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 8 +++++---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 54dcf6d..cd5bf59 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -683,16 +683,18 @@ static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> ObjectArrayList
         auto *value = reinterpret_cast<ObjectArrayList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType, pySelf);
+        auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
+        auto *result = Py_CreateObj<ObjectArrayList>(ObjectArrayListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
-            for (const auto &item: value->vector) {
+            result->vector = self->vector;
+            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
+            for (const auto &item: result->vector) {
                 Py_INCREF(item);
             }
-            result->vector.insert(result->vector.end(), value->vector.begin(), value->vector.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index fd68f71..c45ad02 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -595,16 +595,18 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
         // fast add -> ObjectLinkedList
         auto *value = reinterpret_cast<ObjectLinkedList *>(pyValue);
 
-        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType, pySelf);
+        auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
+        auto *result = Py_CreateObj<ObjectLinkedList>(ObjectLinkedListType);
         if (result == nullptr) {
             return PyErr_NoMemory();
         }
 
         try {
-            for (const auto &item: value->list) {
+            result->list = self->list;
+            result->list.insert(result->list.end(), value->list.begin(), value->list.end());
+            for (const auto &item: result->list) {
                 Py_INCREF(item);
             }
-            result->list.insert(result->list.end(), value->list.begin(), value->list.end());
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
             SAFE_DECREF(result);
-- 
2.43.0


From 5b4e3f0afe823c71bd232638682f2390ebe97985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 26/69] fix: extending an object container with itself leaked
 its items

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 4 ++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index cd5bf59..33be9c5 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -219,10 +219,10 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (Py_TYPE(iterable) == &ObjectArrayListType) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
-        for (const auto &item: iter->vector) {
+        for (const auto &item: iter->vector) {  // before inserting, because iterable may be this list
             Py_INCREF(item);
         }
+        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
         Py_RETURN_NONE;
     }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index c45ad02..2148d13 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -167,10 +167,10 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     // fast extend
     if (Py_TYPE(iterable) == &ObjectLinkedListType) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
-        for (const auto &item: iter->list) {
+        for (const auto &item: iter->list) {  // before inserting, because iterable may be this list
             Py_INCREF(item);
         }
+        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
         self->modCount++;
         Py_RETURN_NONE;
     }
-- 
2.43.0


From cf8921de5a62c53f9cce3fc3dddbf126b1496974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 27/69] fix: extend of ObjectArrayList aborted the interpreter
 on an oversized length hint

---
 pyfastutil/src/objects/ObjectArrayList.cpp | 30 +++++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 33be9c5..096d88c 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -244,8 +244,19 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
+    }
+
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     // do extend
@@ -741,8 +752,19 @@ static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
 
     // pre alloc
     Py_ssize_t hint = PyObject_LengthHint(iterable, 0);
-    if (hint > 0) {
-        self->vector.reserve(self->vector.size() + hint);
+    if (hint < 0) {
+        SAFE_DECREF(iter);
+        return nullptr;
+    }
+
+    try {
+        if (hint > 0) {
+            self->vector.reserve(self->vector.size() + hint);
+        }
+    } catch (const std::exception &e) {
+        SAFE_DECREF(iter);
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return nullptr;
     }
 
     // do extend
-- 
2.43.0


From ce11ac5177c7e05088031f82284fe380399f7c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 28/69] fix: object containers leaked replaced items and
 released removed ones while still in the list

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 20 +++++++++++++----
 pyfastutil/src/objects/ObjectLinkedList.cpp | 25 ++++++++++++++-------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 096d88c..76a9a8b 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -131,7 +131,14 @@ static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
 
     try {
         const auto newSize = static_cast<size_t>(pySSize);
+        std::vector<PyObject *> removed;
+        if (newSize < self->vector.size()) {
+            removed.assign(self->vector.begin() + pySSize, self->vector.end());
+        }
         self->vector.resize(newSize, Py_None);
+        for (const auto &item: removed) {
+            Py_DECREF(item);
+        }
         // No need to call Py_INCREF on Py_None or other constant objects
         // because, the reference count operations on global singleton objects
         // like None, True, and False have been optimized to be no-ops.
@@ -546,16 +553,19 @@ static int ObjectArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     try {
         if (pyValue == nullptr) {
-            SAFE_DECREF(self->vector[static_cast<size_t>(pyIndex)]);
+            PyObject *removed = self->vector[static_cast<size_t>(pyIndex)];
             self->vector.erase(self->vector.begin() + pyIndex);
+            SAFE_DECREF(removed);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
+            PyObject *removed = self->vector[static_cast<size_t>(pyIndex)];
             self->vector[static_cast<size_t>(pyIndex)] = value;
             Py_INCREF(value);
+            SAFE_DECREF(removed);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -912,10 +922,12 @@ static PyObject *ObjectArrayList_reverse(PyObject *pySelf) {
 static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    for (auto &item: self->vector) {
-        SAFE_DECREF(item);
-    }
+    // finalizers may use this list, so it must be empty before any item is released
+    const auto removed = std::move(self->vector);
     self->vector.clear();
+    for (const auto &item: removed) {
+        Py_DECREF(item);
+    }
     Py_RETURN_NONE;
 }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 2148d13..25a86e6 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -238,10 +238,11 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
         return popped;
     }
 
-    auto popped = at(self->list, index);
-    self->list.erase(popped);
+    const auto iter = at(self->list, index);
+    const auto popped = *iter;
+    self->list.erase(iter);
     self->modCount++;
-    return *popped;
+    return popped;
 }
 
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
@@ -502,16 +503,21 @@ static int ObjectLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObje
     try {
         if (pyValue == nullptr) {
             auto iter = at(self->list, static_cast<size_t>(pyIndex));
-            SAFE_DECREF(*iter);
+            PyObject *removed = *iter;
             self->list.erase(iter);
+            self->modCount++;
+            SAFE_DECREF(removed);
         } else {
             PyObject *value = pyValue;
             if (PyErr_Occurred()) {
                 return -1;
             }
 
-            *at(self->list, static_cast<size_t>(pyIndex)) = value;
+            auto iter = at(self->list, static_cast<size_t>(pyIndex));
+            PyObject *removed = *iter;
+            *iter = value;
             Py_INCREF(value);
+            SAFE_DECREF(removed);
         }
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
@@ -789,10 +795,13 @@ static PyObject *ObjectLinkedList_reverse(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    for (auto &item: self->list) {
-        SAFE_DECREF(item);
-    }
+    // finalizers may use this list, so it must be empty before any item is released
+    const auto removed = std::move(self->list);
     self->list.clear();
+    self->modCount++;
+    for (const auto &item: removed) {
+        Py_DECREF(item);
+    }
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 559dae3db0a25c11a2b8aa37bd5a62be5572cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 29/69] fix: *= of object containers repeated too often, leaked
 on 0, and hung or aborted on huge counts

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 16 ++++++++++++----
 pyfastutil/src/objects/ObjectLinkedList.cpp | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 76a9a8b..16c17f1 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -813,11 +813,14 @@ static PyObject *ObjectArrayList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->vector.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
+        if (static_cast<size_t>(n) > self->vector.max_size() / self->vector.size()) {
+            throw std::length_error("result of repetition is too long");
+        }
         const auto selfSize = self->vector.size();
 
         result->vector.reserve(selfSize * n);
@@ -850,6 +853,8 @@ static PyObject *ObjectArrayList_rmul(PyObject *pySelf, PyObject *pyValue) {
     return nullptr;
 }
 
+static PyObject *ObjectArrayList_clear(PyObject *pySelf);
+
 static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
@@ -859,13 +864,16 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->vector.clear();
-        } else {
+            Py_DECREF(ObjectArrayList_clear(pySelf));
+        } else if (!self->vector.empty()) {
             const auto selfSize = self->vector.size();
+            if (static_cast<size_t>(n) > self->vector.max_size() / selfSize) {
+                throw std::length_error("result of repetition is too long");
+            }
 
             self->vector.reserve(selfSize * n);
             for (Py_ssize_t i = 1; i < n; ++i) {
-                for (size_t j = 0; j < self->vector.size(); ++j) {
+                for (size_t j = 0; j < selfSize; ++j) {
                     self->vector.push_back(self->vector[j]);
                     Py_INCREF(self->vector[j]);
                 }
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 25a86e6..4099a2c 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -693,11 +693,14 @@ static PyObject *ObjectLinkedList_mul(PyObject *pySelf, Py_ssize_t n) {
         return PyErr_NoMemory();
     }
 
-    if (n == 0) {
+    if (n == 0 || self->list.empty()) {
         return reinterpret_cast<PyObject *>(result);
     }
 
     try {
+        if (static_cast<size_t>(n) > self->list.max_size() / self->list.size()) {
+            throw std::length_error("result of repetition is too long");
+        }
         for (Py_ssize_t i = 0; i < n; ++i) {
             for (const auto obj: self->list) {
                 result->list.push_back(obj);
@@ -727,6 +730,8 @@ static PyObject *ObjectLinkedList_rmul(PyObject *pySelf, PyObject *pyValue) {
     return nullptr;
 }
 
+static PyObject *ObjectLinkedList_clear(PyObject *pySelf);
+
 static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
@@ -736,9 +741,12 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 
     try {
         if (n == 0) {
-            self->list.clear();
-        } else {
+            Py_DECREF(ObjectLinkedList_clear(pySelf));
+        } else if (!self->list.empty()) {
             const auto size = self->list.size();
+            if (static_cast<size_t>(n) > self->list.max_size() / size) {
+                throw std::length_error("result of repetition is too long");
+            }
             for (Py_ssize_t i = 1; i < n; ++i) {
                 auto iter = self->list.begin();
                 for (size_t j = 0; j < size; ++j, ++iter) {
@@ -746,6 +754,7 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
                     Py_INCREF(*iter);
                 }
             }
+            self->modCount++;
         }
 
         Py_INCREF(pySelf);
-- 
2.43.0


From f2b3145e071a39ae0117de4b7b3e5b9b2bdd8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 30/69] fix: in, index, count and remove of object containers
 ignored equal but not identical objects

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 68 +++++++++++--------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 74 +++++++++++++--------
 2 files changed, 88 insertions(+), 54 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 16c17f1..98b78bf 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -328,6 +328,25 @@ static PyObject *ObjectArrayList_pop(PyObject *pySelf, PyObject *const *args, co
     return popped;
 }
 
+// find an item that is or equals value, like the built-in list
+// return -1 if there is none, -2 if a comparison raises an exception
+// if count isn't null, count all such items instead of returning the first one
+static Py_ssize_t ObjectArrayList_find(ObjectArrayList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop,
+                                       size_t *count = nullptr) {
+    for (Py_ssize_t i = start; i < stop && i < static_cast<Py_ssize_t>(self->vector.size()); ++i) {
+        PyObject *item = self->vector[static_cast<size_t>(i)];
+        Py_INCREF(item);
+        const int cmpResult = PyObject_RichCompareBool(item, value, Py_EQ);
+        Py_DECREF(item);
+        if (cmpResult < 0) return -2;
+        if (cmpResult > 0) {
+            if (count == nullptr) return i;
+            (*count)++;
+        }
+    }
+    return -1;
+}
+
 static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
@@ -358,14 +377,13 @@ static PyObject *ObjectArrayList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto it = std::find(self->vector.begin() + start, self->vector.begin() + stop, value);
-
-    if (it == self->vector.begin() + stop) {
+    Py_ssize_t index = ObjectArrayList_find(self, value, start, stop);
+    if (index == -1) {
         PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+    }
+    if (index < 0) {
         return nullptr;
     }
-
-    Py_ssize_t index = std::distance(self->vector.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
@@ -373,7 +391,10 @@ static PyObject *ObjectArrayList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     try {
-        size_t result = std::count(self->vector.begin(), self->vector.end(), object);
+        size_t result = 0;
+        if (ObjectArrayList_find(self, object, 0, PY_SSIZE_T_MAX, &result) == -2) {
+            return nullptr;
+        }
 
         return PyLong_FromSize_t(result);
     } catch (const std::exception &e) {
@@ -421,12 +442,17 @@ static PyObject *ObjectArrayList_remove(PyObject *pySelf, PyObject *object) {
     }
 
     try {
-        const auto end = self->vector.end();
-        const auto it = std::find(self->vector.begin(), end, value);
+        const Py_ssize_t index = ObjectArrayList_find(self, value, 0, PY_SSIZE_T_MAX);
+        if (index == -2) {
+            return nullptr;
+        }
 
-        if (it != end) {
-            self->vector.erase(it);
-            SAFE_DECREF(value);
+        if (index >= 0) {
+            if (static_cast<size_t>(index) < self->vector.size()) {  // the comparison may have changed this list
+                PyObject *removed = self->vector[static_cast<size_t>(index)];
+                self->vector.erase(self->vector.begin() + index);
+                SAFE_DECREF(removed);
+            }
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
             return nullptr;
@@ -889,27 +915,13 @@ static PyObject *ObjectArrayList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectArrayList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    PyObject *value = key;
-    if (PyErr_Occurred()) {
-        return -1;
-    }
-
-    try {
-        if (std::find(self->vector.begin(), self->vector.end(), value) != self->vector.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    const Py_ssize_t index = ObjectArrayList_find(self, key, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return -1;
     }
+    return index >= 0;
 }
 
 static PyObject *ObjectArrayList_reversed(PyObject *pySelf) {
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 4099a2c..a21512b 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -245,6 +245,31 @@ static PyObject *ObjectLinkedList_pop(PyObject *pySelf, PyObject *const *args, c
     return popped;
 }
 
+// find an item that is or equals value, like the built-in list
+// return -1 if there is none, -2 if a comparison raises an exception
+// if count isn't null, count all such items instead of returning the first one
+static Py_ssize_t ObjectLinkedList_find(ObjectLinkedList *self, PyObject *value, Py_ssize_t start, Py_ssize_t stop,
+                                        size_t *count = nullptr) {
+    auto iter = at(self->list, static_cast<size_t>(start));
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = start; i < stop && i < static_cast<Py_ssize_t>(self->list.size()); ++i) {
+        if (self->modCount != modCount) {  // the comparison changed this list
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+        PyObject *item = *iter++;
+        Py_INCREF(item);
+        const int cmpResult = PyObject_RichCompareBool(item, value, Py_EQ);
+        Py_DECREF(item);
+        if (cmpResult < 0) return -2;
+        if (cmpResult > 0) {
+            if (count == nullptr) return i;
+            (*count)++;
+        }
+    }
+    return -1;
+}
+
 static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
@@ -275,15 +300,13 @@ static PyObject *ObjectLinkedList_index(PyObject *pySelf, PyObject *args) {
         return nullptr;
     }
 
-    auto stopIter = at(self->list, stop);
-    auto it = std::find(at(self->list, start), stopIter, value);
-
-    if (it == stopIter) {
+    Py_ssize_t index = ObjectLinkedList_find(self, value, start, stop);
+    if (index == -1) {
         PyErr_SetString(PyExc_ValueError, "Value is not in list.");
+    }
+    if (index < 0) {
         return nullptr;
     }
-
-    Py_ssize_t index = std::distance(self->list.begin(), it);
     return PyLong_FromSsize_t(index);
 }
 
@@ -291,7 +314,10 @@ static PyObject *ObjectLinkedList_count(PyObject *pySelf, PyObject *object) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     try {
-        size_t result = std::count(self->list.begin(), self->list.end(), object);
+        size_t result = 0;
+        if (ObjectLinkedList_find(self, object, 0, PY_SSIZE_T_MAX, &result) == -2) {
+            return nullptr;
+        }
 
         return PyLong_FromSize_t(result);
     } catch (const std::exception &e) {
@@ -340,12 +366,19 @@ static PyObject *ObjectLinkedList_remove(PyObject *pySelf, PyObject *object) {
     }
 
     try {
-        auto it = std::find(self->list.begin(), self->list.end(), value);
+        const Py_ssize_t index = ObjectLinkedList_find(self, value, 0, PY_SSIZE_T_MAX);
+        if (index == -2) {
+            return nullptr;
+        }
 
-        if (it != self->list.end()) {
-            self->list.erase(it);
-            SAFE_DECREF(value);
-            self->modCount++;
+        if (index >= 0) {
+            auto it = at(self->list, static_cast<size_t>(index));
+            if (it != self->list.end()) {  // the comparison may have changed this list
+                PyObject *removed = *it;
+                self->list.erase(it);
+                self->modCount++;
+                SAFE_DECREF(removed);
+            }
         } else {
             PyErr_SetString(PyExc_ValueError, "Value is not in list.");
             return nullptr;
@@ -766,24 +799,13 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
 }
 
 static int ObjectLinkedList_contains(PyObject *pySelf, PyObject *key) {
-    if (!PyLong_Check(key)) {
-        return 0;
-    }
-
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    PyObject *value = key;
-
-    try {
-        if (std::find(self->list.begin(), self->list.end(), value) != self->list.end()) {
-            return 1;  // true
-        } else {
-            return 0;  // false
-        }
-    } catch (const std::exception &e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    const Py_ssize_t index = ObjectLinkedList_find(self, key, 0, PY_SSIZE_T_MAX);
+    if (index == -2) {
         return -1;
     }
+    return index >= 0;
 }
 
 static PyObject *ObjectLinkedList_reversed(PyObject *pySelf) {
-- 
2.43.0


From 31410f712ea3e45927cb69f87f4916f27de4f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 31/69] fix: ordering of object containers compared sizes first
 and stopped after the first item

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 212 +++++-------------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 224 +++++---------------
 2 files changed, 108 insertions(+), 328 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 98b78bf..c5e48ee 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -951,204 +951,94 @@ static PyObject *ObjectArrayList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *pyValue) {
+// lexicographic comparison with any sequence, like the built-in list
+static PyObject *ObjectArrayList_compareSequence(PyObject *pySelf, PyObject *pyValue, int op) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
+    for (Py_ssize_t i = 0;; ++i) {
+        const Py_ssize_t seqSize = PySequence_Size(pyValue);
+        if (seqSize < 0) return nullptr;
 
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_FALSE;
+        auto selfSize = static_cast<Py_ssize_t>(self->vector.size());
+        if (selfSize != seqSize && (op == Py_EQ || op == Py_NE)) {
+            Py_RETURN_BOOL(op == Py_NE)
+        }
+        if (i >= selfSize || i >= seqSize) {
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
+        }
 
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
-
-        PyObject *self_value = self->vector[i];
-        PyObject *other_value = item;
+        if (item == nullptr) return nullptr;
 
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        // the sequence may have changed this list
+        selfSize = static_cast<Py_ssize_t>(self->vector.size());
+        if (i >= selfSize) {
+            Py_DECREF(item);
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
         }
 
-        if (cmpResult == 0) {
-            Py_RETURN_FALSE;
+        PyObject *selfValue = self->vector[static_cast<size_t>(i)];
+        Py_INCREF(selfValue);
+        int result = PyObject_RichCompareBool(selfValue, item, Py_EQ);
+        if (result == 1) {
+            Py_DECREF(selfValue);
+            Py_DECREF(item);
+            continue;
         }
+        if (result == 0) {
+            if (op == Py_EQ || op == Py_NE) {
+                result = op == Py_NE;
+            } else {
+                result = PyObject_RichCompareBool(selfValue, item, op);
+            }
+        }
+        Py_DECREF(selfValue);
+        Py_DECREF(item);
+        if (result < 0) return nullptr;
+        Py_RETURN_BOOL(result == 1)
     }
+}
 
-    Py_RETURN_TRUE;
+static __forceinline PyObject *ObjectArrayList_eq(PyObject *pySelf, PyObject *pyValue) {
+    if (!PySequence_Check(pyValue))
+        Py_RETURN_FALSE;
+
+    return ObjectArrayList_compareSequence(pySelf, pyValue, Py_EQ);
 }
 
 static __forceinline PyObject *ObjectArrayList_ne(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
     if (!PySequence_Check(pyValue))
         Py_RETURN_TRUE;
 
-    // compare
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->vector.size()))
-        Py_RETURN_TRUE;
-
-    for (Py_ssize_t i = 0; i < seq_size; i++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
-        PyObject *self_value = self->vector[i];
-        PyObject *other_value = item;
-
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-
-        if (cmpResult != 0) {
-            Py_RETURN_TRUE;
-        }
-    }
-
-    Py_RETURN_FALSE;
+    return ObjectArrayList_compareSequence(pySelf, pyValue, Py_NE);
 }
 
 static __forceinline PyObject *ObjectArrayList_lt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
+    if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] < item
-    }
 
-    Py_RETURN_FALSE;
+    return ObjectArrayList_compareSequence(pySelf, pyValue, Py_LT);
 }
 
 static __forceinline PyObject *ObjectArrayList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
+    if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
 
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_LE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] <= item
-    }
-
-    Py_RETURN_FALSE;
+    return ObjectArrayList_compareSequence(pySelf, pyValue, Py_LE);
 }
 
 static __forceinline PyObject *ObjectArrayList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
+    if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
 
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] > item
-    }
-
-    Py_RETURN_FALSE;
+    return ObjectArrayList_compareSequence(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *ObjectArrayList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
+    if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->vector.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->vector.size() < static_cast<size_t>(seqSize))
-    }
-
-    for (Py_ssize_t i = 0; i < seqSize; ++i) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self->vector[i], item, Py_GE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->vector[i] >= item
-    }
 
-    Py_RETURN_FALSE;
+    return ObjectArrayList_compareSequence(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *ObjectArrayList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index a21512b..c35b7f6 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -836,210 +836,100 @@ static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
-static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
+// lexicographic comparison with any sequence, like the built-in list
+static PyObject *ObjectLinkedList_compareSequence(PyObject *pySelf, PyObject *pyValue, int op) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_FALSE;
-
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_FALSE;
-
     auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr)
-            return nullptr;
-
-        PyObject *self_value = *iter;
-        PyObject *other_value = item;
+    auto modCount = self->modCount;
+    for (Py_ssize_t i = 0;; ++i) {
+        const Py_ssize_t seqSize = PySequence_Size(pyValue);
+        if (seqSize < 0) return nullptr;
 
-        // compare
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_EQ);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        auto selfSize = static_cast<Py_ssize_t>(self->list.size());
+        if (selfSize != seqSize && (op == Py_EQ || op == Py_NE)) {
+            Py_RETURN_BOOL(op == Py_NE)
         }
-
-        if (cmpResult == 0) {
-            Py_RETURN_FALSE;
+        if (i >= selfSize || i >= seqSize) {
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
         }
-    }
-
-    Py_RETURN_TRUE;
-}
-
-static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
-    if (!PySequence_Check(pyValue))
-        Py_RETURN_TRUE;
-
-    // compare
-    Py_ssize_t seq_size = PySequence_Size(pyValue);
-    if (seq_size != static_cast<Py_ssize_t>(self->list.size()))
-        Py_RETURN_TRUE;
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seq_size; i++, iter++) {
         PyObject *item = PySequence_GetItem(pyValue, i);
         if (item == nullptr) return nullptr;
-        PyObject *self_value = *iter;
-        PyObject *other_value = item;
 
-        int cmpResult = PyObject_RichCompareBool(self_value, other_value, Py_NE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
+        // the sequence may have changed this list
+        selfSize = static_cast<Py_ssize_t>(self->list.size());
+        if (i >= selfSize) {
+            Py_DECREF(item);
+            Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
         }
 
-        if (cmpResult != 0) {
-            Py_RETURN_TRUE;
+        if (self->modCount != modCount) {  // the sequence changed this list
+            iter = at(self->list, static_cast<size_t>(i));
+            modCount = self->modCount;
+        }
+        PyObject *selfValue = *iter++;  // never keep a node that a comparison may erase
+        Py_INCREF(selfValue);
+        int result = PyObject_RichCompareBool(selfValue, item, Py_EQ);
+        if (result == 1) {
+            Py_DECREF(selfValue);
+            Py_DECREF(item);
+            continue;
         }
+        if (result == 0) {
+            if (op == Py_EQ || op == Py_NE) {
+                result = op == Py_NE;
+            } else {
+                result = PyObject_RichCompareBool(selfValue, item, op);
+            }
+        }
+        Py_DECREF(selfValue);
+        Py_DECREF(item);
+        if (result < 0) return nullptr;
+        Py_RETURN_BOOL(result == 1)
     }
-
-    Py_RETURN_FALSE;
 }
 
-static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
+static __forceinline PyObject *ObjectLinkedList_eq(PyObject *pySelf, PyObject *pyValue) {
+    if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
-    }
 
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
+    return ObjectLinkedList_compareSequence(pySelf, pyValue, Py_EQ);
+}
 
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
+static __forceinline PyObject *ObjectLinkedList_ne(PyObject *pySelf, PyObject *pyValue) {
+    if (!PySequence_Check(pyValue))
+        Py_RETURN_TRUE;
 
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
+    return ObjectLinkedList_compareSequence(pySelf, pyValue, Py_NE);
+}
 
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] < item
-    }
+static __forceinline PyObject *ObjectLinkedList_lt(PyObject *pySelf, PyObject *pyValue) {
+    if (!PySequence_Check(pyValue))
+        Py_RETURN_FALSE;
 
-    Py_RETURN_FALSE;
+    return ObjectLinkedList_compareSequence(pySelf, pyValue, Py_LT);
 }
 
 static __forceinline PyObject *ObjectLinkedList_le(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
+    if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
 
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_LE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] <= item
-    }
-
-    Py_RETURN_FALSE;
+    return ObjectLinkedList_compareSequence(pySelf, pyValue, Py_LE);
 }
 
 static __forceinline PyObject *ObjectLinkedList_gt(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
+    if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
 
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GT);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] > item
-    }
-
-    Py_RETURN_FALSE;
+    return ObjectLinkedList_compareSequence(pySelf, pyValue, Py_GT);
 }
 
 static __forceinline PyObject *ObjectLinkedList_ge(PyObject *pySelf, PyObject *pyValue) {
-    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
-
-    if (!PySequence_Check(pyValue)) {
+    if (!PySequence_Check(pyValue))
         Py_RETURN_FALSE;
-    }
-
-    Py_ssize_t seqSize = PySequence_Size(pyValue);
-    if (seqSize < 0) {
-        return nullptr;
-    }
-
-    if (self->list.size() != static_cast<size_t>(seqSize)) {
-        Py_RETURN_BOOL(self->list.size() < static_cast<size_t>(seqSize))
-    }
-
-    auto iter = self->list.begin();
-    for (Py_ssize_t i = 0; i < seqSize; i++, iter++) {
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) {
-            return nullptr;
-        }
-
-        // compare
-        int cmpResult = PyObject_RichCompareBool(*iter, item, Py_GE);
-        SAFE_DECREF(item);
-        if (cmpResult < 0) {
-            return nullptr;
-        }
-        Py_RETURN_BOOL(cmpResult == 1)  // self->list[i] >= item
-    }
 
-    Py_RETURN_FALSE;
+    return ObjectLinkedList_compareSequence(pySelf, pyValue, Py_GE);
 }
 
 static PyObject *ObjectLinkedList_compare(PyObject *pySelf, PyObject *pyValue, int op) {
-- 
2.43.0


From 035c9af6c34ff37708f88b0a671cca5951d1cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 32/69] fix: slice assignment of object containers leaked or
 lost references, and del of a slice crashed

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 142 ++++++++------------
 pyfastutil/src/objects/ObjectLinkedList.cpp |  91 +++++++++----
 2 files changed, 119 insertions(+), 114 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index c5e48ee..ddc4c5d 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -616,112 +616,84 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+    if (value == nullptr) {  // del self[start:stop:step]
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        if (sliceLength <= 0) {
+            return 0;
+        }
+
+        if (step < 0) {  // erase the same elements from left to right
+            start += (sliceLength - 1) * step;
+            step = -step;
+        }
+
+        std::vector<PyObject *> removed;
+        for (Py_ssize_t i = 0; i < sliceLength; i++) {
+            removed.push_back(self->vector[static_cast<size_t>(start + i * step)]);
+        }
+        if (step == 1) {
+            self->vector.erase(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
+        } else {
+            for (Py_ssize_t i = sliceLength - 1; i >= 0; i--) {
+                self->vector.erase(self->vector.begin() + start + i * step);
+            }
+        }
+        for (const auto &item: removed) {
+            Py_DECREF(item);
+        }
+        return 0;
+    }
 
     if (!PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-
     if (step != 1) {
         PyErr_SetString(PyExc_NotImplementedError, "step must be 1 for slice assignment");
         return -1;
     }
 
+    PyObject *fastItems = PySequence_Fast(value, "can only assign an iterable");
+    if (fastItems == nullptr) {
+        return -1;
+    }
+
     try {
-        PyObject **startPtr = self->vector.data() + start;
+        // reading the items may change this list, and value may be this list
+        PyObject **itemsPtr = PySequence_Fast_ITEMS(fastItems);
+        const std::vector<PyObject *> items(itemsPtr, itemsPtr + PySequence_Fast_GET_SIZE(fastItems));
+        const auto newLength = static_cast<Py_ssize_t>(items.size());
 
-        // Helper function to handle fast memcpy and reference counting
-        static const auto fastCopy = [](PyObject **dest, PyObject **src, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                SAFE_DECREF(dest[i]);  // Decrease reference for old item
-                Py_INCREF(src[i]);    // Increase reference for new item
-            }
-            fast_memcpy(dest, src, length * sizeof(PyObject *));
-        };
-
-        // Helper function to handle generic copy (non-optimized path)
-        static const auto genericCopy = [](PyObject **dest, PyObject *srcSeq, Py_ssize_t length) {
-            for (Py_ssize_t i = 0; i < length; i++) {
-                PyObject *item = PySequence_GetItem(srcSeq, i);
-                if (item == nullptr) {
-                    return -1;  // Exception already set
-                }
-                SAFE_DECREF(dest[i]);
-                dest[i] = item;
-            }
-            return 0;
-        };
-
-        if (newLength == sliceLength) {  // Case 1: Replace elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
-            }
-        } else if (newLength < sliceLength) {  // Case 2: Replace and remove extra elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), newLength);
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, newLength);
-            } else {
-                if (genericCopy(startPtr, value, newLength) < 0) {
-                    return -1;
-                }
-            }
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
+        for (const auto &item: items) {
+            Py_INCREF(item);
+        }
 
-            // Remove extra elements
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(startPtr[i]);
-            }
-            self->vector.erase(self->vector.begin() + start + newLength, self->vector.begin() + stop);
-        } else {  // Case 3: Replace and insert additional elements
-            if (Py_TYPE(value) == &ObjectArrayListType) {
-                auto *fastValue = reinterpret_cast<ObjectArrayList *>(value);
-                fastCopy(startPtr, fastValue->vector.data(), sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->vector.data() + sliceLength,
-                        fastValue->vector.data() + newLength
-                );
-            } else if (Py_TYPE(value) == &PyList_Type) {
-                auto *fastValue = reinterpret_cast<PyListObject *>(value);
-                fastCopy(startPtr, fastValue->ob_item, sliceLength);
-                self->vector.insert(
-                        self->vector.begin() + start + sliceLength,
-                        fastValue->ob_item + sliceLength,
-                        fastValue->ob_item + newLength
-                );
-            } else {
-                if (genericCopy(startPtr, value, sliceLength) < 0) {
-                    return -1;
-                }
+        std::vector<PyObject *> removed;
+        removed.assign(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
+        const Py_ssize_t common = std::min(newLength, sliceLength);
+        if (newLength > sliceLength) {  // insert additional elements
+            self->vector.insert(self->vector.begin() + start + common, items.begin() + common, items.end());
+        } else if (newLength < sliceLength) {  // remove extra elements
+            self->vector.erase(
+                    self->vector.begin() + start + common,
+                    self->vector.begin() + start + sliceLength
+            );
+        }
+        std::copy(items.begin(), items.begin() + common, self->vector.begin() + start);
 
-                // Insert additional elements
-                for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                    PyObject *item = PySequence_GetItem(value, i);
-                    if (item == nullptr) {
-                        return -1;
-                    }
-                    self->vector.insert(self->vector.begin() + start + i, item);
-                }
-            }
+        // finalizers may use this list, so release the old items at last
+        for (const auto &item: removed) {
+            Py_DECREF(item);
         }
     } catch (const std::exception &e) {
+        SAFE_DECREF(fastItems);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(fastItems);
     return 0;
 }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index c35b7f6..2d84abb 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -4,6 +4,7 @@
 
 #include "ObjectLinkedList.h"
 #include <list>
+#include <vector>
 #include <algorithm>
 #include <stdexcept>
 #include "utils/PythonUtils.h"
@@ -576,56 +577,88 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         return -1;
     }
 
-    sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+    if (value == nullptr) {  // del self[start:stop:step]
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+        if (sliceLength <= 0) {
+            return 0;
+        }
+
+        if (step < 0) {  // erase the same elements from left to right
+            start += (sliceLength - 1) * step;
+            step = -step;
+        }
+
+        std::vector<PyObject *> removed;
+        auto iter = at(self->list, static_cast<size_t>(start));
+        for (Py_ssize_t i = 0; i < sliceLength; i++) {
+            removed.push_back(*iter);
+            iter = self->list.erase(iter);
+            if (i + 1 < sliceLength) {
+                std::advance(iter, step - 1);
+            }
+        }
+        self->modCount++;
+        for (const auto &item: removed) {
+            Py_DECREF(item);
+        }
+        return 0;
+    }
 
     if (!PySequence_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "can only assign an iterable");
         return -1;
     }
 
-    Py_ssize_t newLength = PySequence_Size(value);
-    if (newLength < 0) {
+    PyObject *fastItems = PySequence_Fast(value, "can only assign an iterable");
+    if (fastItems == nullptr) {
         return -1;
     }
 
-    PyObject *item = nullptr;
     try {
-        if (newLength < sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(start + newLength * step));
-            for (Py_ssize_t i = newLength; i < sliceLength; i++) {
-                SAFE_DECREF(*iter);
+        // reading the items may change this list, and value may be this list
+        PyObject **itemsPtr = PySequence_Fast_ITEMS(fastItems);
+        const std::vector<PyObject *> items(itemsPtr, itemsPtr + PySequence_Fast_GET_SIZE(fastItems));
+        const auto newLength = static_cast<Py_ssize_t>(items.size());
+
+        sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->list.size()), &start, &stop, step);
+        if (step != 1 && newLength != sliceLength) {
+            SAFE_DECREF(fastItems);
+            PyErr_Format(PyExc_ValueError, "attempt to assign sequence of size %zd to extended slice of size %zd",
+                         newLength, sliceLength);
+            return -1;
+        }
+        for (const auto &item: items) {
+            Py_INCREF(item);
+        }
+
+        std::vector<PyObject *> removed;
+        if (step == 1) {
+            auto iter = at(self->list, static_cast<size_t>(start));
+            for (Py_ssize_t i = 0; i < sliceLength; i++) {
+                removed.push_back(*iter);
                 iter = self->list.erase(iter);
             }
-        } else if (newLength > sliceLength) {
-            auto iter = at(self->list, static_cast<size_t>(stop));
-            for (Py_ssize_t i = sliceLength; i < newLength; i++) {
-                item = PySequence_GetItem(value, i);
-                if (item == nullptr) {
-                    return -1;
-                }
-                iter = self->list.insert(iter, item);
-                ++iter;
+            self->list.insert(iter, items.begin(), items.end());
+            self->modCount++;
+        } else {
+            for (Py_ssize_t i = 0; i < newLength; i++) {
+                auto iter = at(self->list, static_cast<size_t>(start + i * step));
+                removed.push_back(*iter);
+                *iter = items[static_cast<size_t>(i)];
             }
         }
 
-        for (Py_ssize_t i = 0; i < newLength; i++) {
-            Py_ssize_t index = start + i * step;
-            auto iter = at(self->list, static_cast<size_t>(index));
-
-            item = PySequence_GetItem(value, i);
-            if (item == nullptr) {
-                return -1;
-            }
-
-            SAFE_DECREF(*iter);
-            *iter = item;
+        // finalizers may use this list, so release the old items at last
+        for (const auto &item: removed) {
+            Py_DECREF(item);
         }
     } catch (const std::exception &e) {
-        SAFE_DECREF(item);
+        SAFE_DECREF(fastItems);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
 
+    SAFE_DECREF(fastItems);
     return 0;
 }
 
-- 
2.43.0


From 69ef7847f7bc0dd172ffac5ad1283d65f58afaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 33/69] fix: iterators of object containers read stale or freed
 elements after modifications

---
 .../src/objects/ObjectArrayListIter.cpp       | 16 +++-------
 pyfastutil/src/objects/ObjectLinkedList.cpp   |  4 ++-
 .../src/objects/ObjectLinkedListIter.cpp      | 31 +++++--------------
 3 files changed, 15 insertions(+), 36 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 9447d5b..16a3fc9 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -18,7 +18,7 @@ ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reve
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : 0;
+        instance->index = (!list->vector.empty()) ? list->vector.size() - 1 : SIZE_MAX;
         instance->reversed = true;
     } else {
         instance->index = 0;
@@ -36,7 +36,9 @@ static void ObjectArrayListIter_dealloc(ObjectArrayListIter *self) {
 static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectArrayListIter *>(pySelf);
 
-    if (self->container->vector.empty()) {
+    if (self->index >= self->container->vector.size()) {
+        // stay finished, even if the list grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
@@ -49,22 +51,12 @@ static PyObject *ObjectArrayListIter_next(PyObject *pySelf) {
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
 
         PyObject *element = self->container->vector[self->index];
         self->index--;
         Py_INCREF(element);
         return element;
     } else {
-        if (self->index >= self->container->vector.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
         PyObject *element = self->container->vector[self->index];
         self->index++;
         Py_INCREF(element);
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 2d84abb..86a256d 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -191,8 +191,8 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
         }
 
         self->list.push_back(item);
+        self->modCount++;
     }
-    self->modCount++;
 
     if (PyErr_Occurred()) {
         SAFE_DECREF(iter);
@@ -713,6 +713,7 @@ static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
             Py_INCREF(item);
         }
         self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+        self->modCount++;
         Py_INCREF(pySelf);
         return pySelf;
     }
@@ -734,6 +735,7 @@ static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
         }
 
         self->list.push_back(value);
+        self->modCount++;
     }
 
     if (PyErr_Occurred()) {
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index d8dcf16..d05618f 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -19,9 +19,9 @@ ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool r
     Py_INCREF(list);
     instance->container = list;
     if (reversed) {
-        instance->index = (!list->list.empty()) ? list->list.size() - 1 : 0;
+        instance->index = (!list->list.empty()) ? list->list.size() - 1 : SIZE_MAX;
         instance->reversed = true;
-        instance->cacheIter = --list->list.end();
+        instance->cacheIter = at(list->list, instance->index);
     } else {
         instance->index = 0;
         instance->reversed = false;
@@ -42,51 +42,36 @@ static __forceinline void updateCache(ObjectLinkedListIter *&self) {
         return;
     }
 
-    auto newIter = at(self->container->list, self->index);
-    if (self->reversed) {
-        self->index--;
-    } else {
-        self->index++;
-    }
-    self->cacheIter = newIter;
+    self->cacheIter = at(self->container->list, self->index);
     self->cacheModCount = self->container->modCount;
 }
 
 static PyObject *ObjectLinkedListIter_next(PyObject *pySelf) {
     auto *self = reinterpret_cast<ObjectLinkedListIter *>(pySelf);
 
-    if (self->container->list.empty()) {
+    if (self->index >= self->container->list.size()) {
+        // stay finished, even if the list grows later
+        self->index = SIZE_MAX;
         PyErr_SetNone(PyExc_StopIteration);
         return nullptr;
     }
 
+    updateCache(self);
     if (self->reversed) {
         if (self->index == 0) {
             // last iteration
-            PyObject *element = *(--self->container->list.end());
+            PyObject *element = *self->cacheIter;
             self->index = SIZE_MAX;
             Py_INCREF(element);
             return element;
         }
-        if (self->index == SIZE_MAX) {
-            // already finish iteration
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
 
-        updateCache(self);
         PyObject *element = *self->cacheIter;
         self->index--;
         self->cacheIter--;
         Py_INCREF(element);
         return element;
     } else {
-        if (self->index >= self->container->list.size()) {
-            PyErr_SetNone(PyExc_StopIteration);
-            return nullptr;
-        }
-
-        updateCache(self);
         PyObject *element = *self->cacheIter;
         self->index++;
         self->cacheIter++;
-- 
2.43.0


From c2bdd2bd2b8aed1fcf55353ce03ea06606b13d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 34/69] fix: ObjectLinkedList crashed when __init__ was never
 called

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 86a256d..c68a33f 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -21,9 +21,20 @@ static PyTypeObject ObjectLinkedListType = {
         PyVarObject_HEAD_INIT(&PyType_Type, 0)
 };
 
-static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *ObjectLinkedList_clear(PyObject *pySelf);
+
+static PyObject *ObjectLinkedList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *pySelf = PyType_GenericNew(type, args, kwargs);
+    if (pySelf == nullptr) return nullptr;
+
+    // a zeroed std::list is not valid, so it must exist even if __init__ is never called
+    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
     new(&self->list) std::list<PyObject *>();
-    self->modCount = 0;
+    return pySelf;
+}
+
+static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObject *kwargs) {
+    Py_DECREF(ObjectLinkedList_clear(reinterpret_cast<PyObject *>(self)));
 
     PyObject *pyIterable = nullptr;
 
@@ -798,8 +809,6 @@ static PyObject *ObjectLinkedList_rmul(PyObject *pySelf, PyObject *pyValue) {
     return nullptr;
 }
 
-static PyObject *ObjectLinkedList_clear(PyObject *pySelf);
-
 static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
@@ -1089,7 +1098,7 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_iter = ObjectLinkedList_iter;
     type.tp_methods = ObjectLinkedList_methods;
     type.tp_init = (initproc) ObjectLinkedList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectLinkedList_new;
     type.tp_dealloc = (destructor) ObjectLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From 31eb19eac186184a10de8c89490a6200367834ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 35/69] fix: repr of object containers recursed forever on
 themselves and swallowed the exception of the last item

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 27 +++++++-------------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 28 +++++++--------------
 2 files changed, 18 insertions(+), 37 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index ddc4c5d..9a343a3 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1048,27 +1048,18 @@ static __forceinline PyObject *ObjectArrayList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
-    }
-
-    // generate string
-    for (size_t i = 0; i < vec.size() - 1; ++i) {
-        PyObject *itemRepr = PyObject_Repr(vec[i]);
-        if (itemRepr == nullptr) {
-            SAFE_DECREF(reprList);
-            return nullptr;
-        }
-
-        PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+    // a list may contain itself
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec[vec.size() - 1]);
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    // repr of an item may change this list
+    PyObject *items = ObjectArrayList_to_list(pySelf);
+    PyObject *reprList = items == nullptr ? nullptr : PyObject_Repr(items);
+    Py_XDECREF(items);
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index c68a33f..5ac1c84 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1011,28 +1011,18 @@ static __forceinline PyObject *ObjectLinkedList_repr(PyObject *pySelf) {
         return PyUnicode_FromString("[]");
     }
 
-    PyObject *reprList = PyUnicode_FromString("[");
-    if (reprList == nullptr) {
-        return nullptr;
-    }
-
-    // generate string
-    auto iter = self->list.begin();
-    for (size_t i = 0; i < vec.size() - 1; ++i, ++iter) {
-        PyObject *itemRepr = PyObject_Repr(*iter);
-        if (itemRepr == nullptr) {
-            SAFE_DECREF(reprList);
-            return nullptr;
-        }
-
-        PyUnicode_AppendAndDel(&reprList, itemRepr);
-        PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString(", "));
+    // a list may contain itself
+    const int entered = Py_ReprEnter(pySelf);
+    if (entered != 0) {
+        return entered > 0 ? PyUnicode_FromString("[...]") : nullptr;
     }
 
-    PyObject *itemRepr = PyObject_Repr(vec.back());
-    PyUnicode_AppendAndDel(&reprList, itemRepr);
-    PyUnicode_AppendAndDel(&reprList, PyUnicode_FromString("]"));
+    // repr of an item may change this list
+    PyObject *items = ObjectLinkedList_to_list(pySelf);
+    PyObject *reprList = items == nullptr ? nullptr : PyObject_Repr(items);
+    Py_XDECREF(items);
 
+    Py_ReprLeave(pySelf);
     return reprList;
 }
 
-- 
2.43.0


From 67cc6f6c4c2d293ebf691bfc4694115395ebff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 36/69] fix: Unsafe.as_object returned a borrowed reference as
 a new one

Every call dropped one reference the object did not own, so the object was
freed while still in use after enough calls.
---
 pyfastutil/src/unsafe/Unsafe.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 1794475..95f4138 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -247,7 +247,16 @@ static PyObject *Unsafe_getAddress([[maybe_unused]] PyObject *self, PyObject *py
 }
 
 static PyObject *Unsafe_as_object([[maybe_unused]] PyObject *self, PyObject *pyAddress) {
-    return reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    auto *object = reinterpret_cast<PyObject *>(PyLong_AsVoidPtr(pyAddress));
+    if (object == nullptr) {
+        if (!PyErr_Occurred()) {
+            PyErr_SetString(PyExc_ValueError, "NULL pointer is not an object.");
+        }
+        return nullptr;
+    }
+
+    Py_INCREF(object);
+    return object;
 }
 
 static PyObject *Unsafe_memcpy([[maybe_unused]] PyObject *self, PyObject *const *args, Py_ssize_t nargs) {
-- 
2.43.0


From 1ae09098b7047938b7469a6dc6c5bf7d852f5caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 37/69] fix: Unsafe.fgets leaked its buffer and raised at the
 end of the stream

The documentation promises an empty string there.
---
 pyfastutil/src/unsafe/Unsafe.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 95f4138..1399d0b 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -355,11 +355,17 @@ static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBuf
     char *buffer = new char[bufferSize];
 
     if (fgets(buffer, bufferSize, stdin) == nullptr) {
+        delete[] buffer;
+        if (feof(stdin)) {
+            return PyUnicode_FromString("");
+        }
         PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
         return nullptr;
     }
 
-    return Py_BuildValue("s", buffer);
+    PyObject *result = PyUnicode_FromString(buffer);
+    delete[] buffer;
+    return result;
 }
 
 static PyMethodDef Unsafe_methods[] = {
-- 
2.43.0


From 37fa523ef390146e38c28177f8e885a35e747e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 38/69] fix: SIMD functions used memory before checking their
 arguments

An argument of the wrong type made them read or write address -1 instead of
raising the pending exception.
---
 pyfastutil/src/unsafe/SIMD.cpp | 51 ++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index 9f18d47..ad45f79 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -45,6 +45,9 @@ static __forceinline PyObject *SIMD_memcpy(PyObject *const *args, Py_ssize_t nar
     auto *addressFrom = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[0]));
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsUnsignedLongLong(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
 
     // Perform the memory copy
     simd::simdMemCpy(addressFrom, addressTo, count);
@@ -65,6 +68,9 @@ static __forceinline PyObject *SIMD_memcpyAligned(PyObject *const *args, Py_ssiz
     auto *addressFrom = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[0]));
     auto *addressTo = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[1]));
     size_t count = PyLong_AsSize_t(args[2]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
 
     // Perform the memory copy
     simd::simdMemCpyAligned(addressFrom, addressTo, count);
@@ -83,6 +89,9 @@ static __forceinline PyObject *SIMD_reverse(PyObject *const *args, Py_ssize_t na
     // Extract arguments
     auto *address = reinterpret_cast<T *>(PyLong_AsVoidPtr(args[0]));
     size_t count = PyLong_AsSize_t(args[1]);
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
 
     // Perform the memory copy
     simd::simdReverse(address, count);
@@ -143,12 +152,17 @@ static PyObject *SIMD_setAVX512Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi32(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i value = _mm512_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8]),
             PyFast_AsInt(args[9]), PyFast_AsInt(args[10]), PyFast_AsInt(args[11]), PyFast_AsInt(args[12]),
             PyFast_AsInt(args[13]), PyFast_AsInt(args[14]), PyFast_AsInt(args[15]), PyFast_AsInt(args[16])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = value;
 
     Py_RETURN_NONE;
 #else
@@ -165,7 +179,8 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi16(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i value = _mm512_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
@@ -175,6 +190,10 @@ static PyObject *SIMD_setAVX512Vector16([[maybe_unused]] PyObject *pySelf,
             PyFast_AsShort(args[25]), PyFast_AsShort(args[26]), PyFast_AsShort(args[27]), PyFast_AsShort(args[28]),
             PyFast_AsShort(args[29]), PyFast_AsShort(args[30]), PyFast_AsShort(args[31]), PyFast_AsShort(args[32])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = value;
 
     Py_RETURN_NONE;
 #else
@@ -191,7 +210,8 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m512i *) PyLong_AsVoidPtr(args[0]))) = _mm512_set_epi8(
+    auto *ptr = (__m512i *) PyLong_AsVoidPtr(args[0]);
+    const __m512i value = _mm512_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -209,6 +229,10 @@ static PyObject *SIMD_setAVX512Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[57]), PyFast_AsChar(args[58]), PyFast_AsChar(args[59]), PyFast_AsChar(args[60]),
             PyFast_AsChar(args[61]), PyFast_AsChar(args[62]), PyFast_AsChar(args[63]), PyFast_AsChar(args[64])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = value;
 
     Py_RETURN_NONE;
 #else
@@ -225,10 +249,15 @@ static PyObject *SIMD_setAVX2Vector32([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi32(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i value = _mm256_set_epi32(
             PyFast_AsInt(args[1]), PyFast_AsInt(args[2]), PyFast_AsInt(args[3]), PyFast_AsInt(args[4]),
             PyFast_AsInt(args[5]), PyFast_AsInt(args[6]), PyFast_AsInt(args[7]), PyFast_AsInt(args[8])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = value;
 
     Py_RETURN_NONE;
 #else
@@ -245,12 +274,17 @@ static PyObject *SIMD_setAVX2Vector16([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi16(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i value = _mm256_set_epi16(
             PyFast_AsShort(args[1]), PyFast_AsShort(args[2]), PyFast_AsShort(args[3]), PyFast_AsShort(args[4]),
             PyFast_AsShort(args[5]), PyFast_AsShort(args[6]), PyFast_AsShort(args[7]), PyFast_AsShort(args[8]),
             PyFast_AsShort(args[9]), PyFast_AsShort(args[10]), PyFast_AsShort(args[11]), PyFast_AsShort(args[12]),
             PyFast_AsShort(args[13]), PyFast_AsShort(args[14]), PyFast_AsShort(args[15]), PyFast_AsShort(args[16])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = value;
 
     Py_RETURN_NONE;
 #else
@@ -267,7 +301,8 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
         return nullptr;
     }
 
-    (*((__m256i *) PyLong_AsVoidPtr(args[0]))) = _mm256_set_epi8(
+    auto *ptr = (__m256i *) PyLong_AsVoidPtr(args[0]);
+    const __m256i value = _mm256_set_epi8(
             PyFast_AsChar(args[1]), PyFast_AsChar(args[2]), PyFast_AsChar(args[3]), PyFast_AsChar(args[4]),
             PyFast_AsChar(args[5]), PyFast_AsChar(args[6]), PyFast_AsChar(args[7]), PyFast_AsChar(args[8]),
             PyFast_AsChar(args[9]), PyFast_AsChar(args[10]), PyFast_AsChar(args[11]), PyFast_AsChar(args[12]),
@@ -277,6 +312,10 @@ static PyObject *SIMD_setAVX2Vector8([[maybe_unused]] PyObject *pySelf,
             PyFast_AsChar(args[25]), PyFast_AsChar(args[26]), PyFast_AsChar(args[27]), PyFast_AsChar(args[28]),
             PyFast_AsChar(args[29]), PyFast_AsChar(args[30]), PyFast_AsChar(args[31]), PyFast_AsChar(args[32])
     );
+    if (PyErr_Occurred()) {
+        return nullptr;
+    }
+    *ptr = value;
 
     Py_RETURN_NONE;
 #else
-- 
2.43.0


From 18bbd94463ee9ed57a2686cf64bb8f7c2ada4cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 39/69] fix: indexing a container with something that is no
 index crashed

x['a'], x[1.5] or del x[None] handed the object to PySlice_Unpack, which
reads it as a slice.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 10 ++++++++++
 pyfastutil/src/ints/IntArrayList.cpp        | 10 ++++++++++
 pyfastutil/src/ints/IntLinkedList.cpp       | 10 ++++++++++
 pyfastutil/src/objects/ObjectArrayList.cpp  | 10 ++++++++++
 pyfastutil/src/objects/ObjectLinkedList.cpp | 10 ++++++++++
 5 files changed, 50 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index b5dd29c..320bd1c 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -575,6 +575,11 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
 
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -647,6 +652,11 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 66731ee..e08201e 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -573,6 +573,11 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -645,6 +650,11 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
 
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 9a92671..ee79c41 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -530,6 +530,11 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -605,6 +610,11 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
 
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 9a343a3..779ec05 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -543,6 +543,11 @@ static PyObject *ObjectArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
 
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -611,6 +616,11 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
 
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 5ac1c84..77afac4 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -507,6 +507,11 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
 
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return nullptr;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return nullptr;
@@ -583,6 +588,11 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
 
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
+    if (!PySlice_Check(slice)) {
+        PyErr_Format(PyExc_TypeError, "list indices must be integers or slices, not %.200s", Py_TYPE(slice)->tp_name);
+        return -1;
+    }
+
     Py_ssize_t start, stop, step, sliceLength;
     if (PySlice_Unpack(slice, &start, &stop, &step) < 0) {
         return -1;
-- 
2.43.0


From 07fd0abf0c6ca21104a9500ac3195ab4610c8afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 40/69] fix: extending an instance of a subclass with itself
 never ended

x.extend(x) and x += x iterated over the growing list until memory ran out
unless the type was exactly the container's.
---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 4 ++--
 pyfastutil/src/ints/IntArrayList.cpp        | 4 ++--
 pyfastutil/src/ints/IntLinkedList.cpp       | 4 ++--
 pyfastutil/src/objects/ObjectArrayList.cpp  | 4 ++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 320bd1c..c82c797 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -254,7 +254,7 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
         self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
         Py_RETURN_NONE;
@@ -778,7 +778,7 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &BigIntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
         self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
         Py_INCREF(pySelf);
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index e08201e..f186e08 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -254,7 +254,7 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
         self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
         Py_RETURN_NONE;
@@ -776,7 +776,7 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
         self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
         Py_INCREF(pySelf);
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index ee79c41..71b0c4b 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -218,7 +218,7 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
         self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
         self->modCount++;
@@ -731,7 +731,7 @@ static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &IntLinkedListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
         self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
         self->modCount++;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 779ec05..444f240 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -224,7 +224,7 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectArrayListType) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
         for (const auto &item: iter->vector) {  // before inserting, because iterable may be this list
             Py_INCREF(item);
@@ -752,7 +752,7 @@ static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectArrayListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectArrayListType) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
         for (const auto &item: iter->vector) {
             Py_INCREF(item);
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 77afac4..4d2b0e5 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -177,7 +177,7 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     PyObject *iterable = args[0];
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectLinkedListType) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
         for (const auto &item: iter->list) {  // before inserting, because iterable may be this list
             Py_INCREF(item);
@@ -728,7 +728,7 @@ static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
     // fast extend
-    if (Py_TYPE(iterable) == &ObjectLinkedListType) {
+    if (iterable == pySelf || Py_TYPE(iterable) == &ObjectLinkedListType) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
         for (const auto &item: iter->list) {
             Py_INCREF(item);
-- 
2.43.0


From b999826b40af551fd3fb983210b3a7f1800bbe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 41/69] fix: calling __init__ of an array list again leaked its
 storage and elements

---
 pyfastutil/src/ints/BigIntArrayList.cpp    | 14 ++++++++++++--
 pyfastutil/src/ints/IntArrayList.cpp       | 14 ++++++++++++--
 pyfastutil/src/objects/ObjectArrayList.cpp | 18 ++++++++++++++++--
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index c82c797..602cab5 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -41,8 +41,18 @@ __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIt
     return true;
 }
 
-static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *BigIntArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *pySelf = PyType_GenericNew(type, args, kwargs);
+    if (pySelf == nullptr) return nullptr;
+
+    // here and not in __init__, which may be called more than once
+    auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
     new(&self->vector) std::vector<long long, AlignedAllocator<long long, 64>>();
+    return pySelf;
+}
+
+static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject *kwargs) {
+    self->vector.clear();
 
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
@@ -1273,7 +1283,7 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
     type.tp_iter = BigIntArrayList_iter;
     type.tp_methods = BigIntArrayList_methods;
     type.tp_init = (initproc) BigIntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = BigIntArrayList_new;
     type.tp_dealloc = (destructor) BigIntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index f186e08..5a1745c 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -41,8 +41,18 @@ __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIt
     return true;
 }
 
-static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *IntArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *pySelf = PyType_GenericNew(type, args, kwargs);
+    if (pySelf == nullptr) return nullptr;
+
+    // here and not in __init__, which may be called more than once
+    auto *self = reinterpret_cast<IntArrayList *>(pySelf);
     new(&self->vector) std::vector<int, AlignedAllocator<int, 64>>();
+    return pySelf;
+}
+
+static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwargs) {
+    self->vector.clear();
 
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
@@ -1271,7 +1281,7 @@ void initializeIntArrayListType(PyTypeObject &type) {
     type.tp_iter = IntArrayList_iter;
     type.tp_methods = IntArrayList_methods;
     type.tp_init = (initproc) IntArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = IntArrayList_new;
     type.tp_dealloc = (destructor) IntArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 444f240..4e30645 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -41,8 +41,22 @@ __forceinline bool parseArgs(PyObject *&args, PyObject *&kwargs, PyObject *&pyIt
     return true;
 }
 
-static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
+static PyObject *ObjectArrayList_new(PyTypeObject *type, PyObject *args, PyObject *kwargs) {
+    PyObject *pySelf = PyType_GenericNew(type, args, kwargs);
+    if (pySelf == nullptr) return nullptr;
+
+    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
     new(&self->vector) std::vector<PyObject *>();
+    return pySelf;
+}
+
+static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject *kwargs) {
+    // drop what an earlier call of __init__ stored
+    std::vector<PyObject *> old;
+    old.swap(self->vector);
+    for (const auto &item: old) {
+        Py_DECREF(item);
+    }
 
     PyObject *pyIterable = nullptr;
     Py_ssize_t pySize = -1;
@@ -1136,7 +1150,7 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_iter = ObjectArrayList_iter;
     type.tp_methods = ObjectArrayList_methods;
     type.tp_init = (initproc) ObjectArrayList_init;
-    type.tp_new = PyType_GenericNew;
+    type.tp_new = ObjectArrayList_new;
     type.tp_dealloc = (destructor) ObjectArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
     type.tp_free = PyObject_Del;
-- 
2.43.0


From d99d6aaeb7a200bf6c1474e0eb88e2ace72f4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 42/69] fix: the types were never readied, so attributes of
 SIMD() and SIMDLowAVX512() could not be found

The first access by getattr() failed with AttributeError unless something
else (with, dir, a subclass) had made CPython ready the type before.
---
 pyfastutil/src/ints/BigIntArrayList.cpp         | 2 ++
 pyfastutil/src/ints/BigIntArrayListIter.cpp     | 2 ++
 pyfastutil/src/ints/IntArrayList.cpp            | 2 ++
 pyfastutil/src/ints/IntArrayListIter.cpp        | 2 ++
 pyfastutil/src/ints/IntLinkedList.cpp           | 2 ++
 pyfastutil/src/ints/IntLinkedListIter.cpp       | 2 ++
 pyfastutil/src/objects/ObjectArrayList.cpp      | 2 ++
 pyfastutil/src/objects/ObjectArrayListIter.cpp  | 2 ++
 pyfastutil/src/objects/ObjectLinkedList.cpp     | 2 ++
 pyfastutil/src/objects/ObjectLinkedListIter.cpp | 2 ++
 pyfastutil/src/unsafe/ASM.cpp                   | 2 ++
 pyfastutil/src/unsafe/SIMD.cpp                  | 2 ++
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp         | 2 ++
 pyfastutil/src/unsafe/Unsafe.cpp                | 2 ++
 14 files changed, 28 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 602cab5..4f5be4e 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1298,6 +1298,8 @@ void initializeBigIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayList() {
     initializeBigIntArrayListType(BigIntArrayListType);
+    if (PyType_Ready(&BigIntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index b13ce93..104e571 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -95,6 +95,8 @@ void initializeBigIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_BigIntArrayListIter() {
     initializeBigIntArrayListIterType(BigIntArrayListIterType);
+    if (PyType_Ready(&BigIntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&BigIntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 5a1745c..f54e317 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1296,6 +1296,8 @@ void initializeIntArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayList() {
     initializeIntArrayListType(IntArrayListType);
+    if (PyType_Ready(&IntArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index 83fcbfe..b845cef 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -95,6 +95,8 @@ void initializeIntArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntArrayListIter() {
     initializeIntArrayListIterType(IntArrayListIterType);
+    if (PyType_Ready(&IntArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 71b0c4b..1cfd9e5 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -1168,6 +1168,8 @@ void initializeIntLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedList() {
     initializeIntLinkedListType(IntLinkedListType);
+    if (PyType_Ready(&IntLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index cd59b36..514226b 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -111,6 +111,8 @@ void initializeIntLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_IntLinkedListIter() {
     initializeIntLinkedListIterType(IntLinkedListIterType);
+    if (PyType_Ready(&IntLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&IntLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 4e30645..48d4ead 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -1164,6 +1164,8 @@ void initializeObjectArrayListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayList() {
     initializeObjectArrayListType(ObjectArrayListType);
+    if (PyType_Ready(&ObjectArrayListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 16a3fc9..0414f53 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -98,6 +98,8 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectArrayListIter() {
     initializeObjectArrayListIterType(ObjectArrayListIterType);
+    if (PyType_Ready(&ObjectArrayListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectArrayListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 4d2b0e5..b8e8402 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -1112,6 +1112,8 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedList() {
     initializeObjectLinkedListType(ObjectLinkedListType);
+    if (PyType_Ready(&ObjectLinkedListType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedList_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index d05618f..ec7981a 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -114,6 +114,8 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ObjectLinkedListIter() {
     initializeObjectLinkedListIterType(ObjectLinkedListIterType);
+    if (PyType_Ready(&ObjectLinkedListIterType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ObjectLinkedListIter_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index ac06646..98cfa86 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -356,6 +356,8 @@ static struct PyModuleDef ASM_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_ASM() {
     initializeASMType(ASMType);
+    if (PyType_Ready(&ASMType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&ASM_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMD.cpp b/pyfastutil/src/unsafe/SIMD.cpp
index ad45f79..ab76981 100644
--- a/pyfastutil/src/unsafe/SIMD.cpp
+++ b/pyfastutil/src/unsafe/SIMD.cpp
@@ -441,6 +441,8 @@ static struct PyModuleDef SIMD_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMD() {
     initializeSIMDType(SIMDType);
+    if (PyType_Ready(&SIMDType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMD_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ecbc2a6..ff7cad1 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -35663,6 +35663,8 @@ static struct PyModuleDef SIMDLowAVX512_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_SIMDLowAVX512() {
     initializeSIMDLowAVX512Type(SIMDLowAVX512Type);
+    if (PyType_Ready(&SIMDLowAVX512Type) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&SIMDLowAVX512_module);
     if (object == nullptr)
diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 1399d0b..4311f5d 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -422,6 +422,8 @@ static struct PyModuleDef Unsafe_module = {
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
 PyMODINIT_FUNC PyInit_Unsafe() {
     initializeUnsafeType(UnsafeType);
+    if (PyType_Ready(&UnsafeType) < 0)
+        return nullptr;
 
     PyObject *object = PyModule_Create(&Unsafe_module);
     if (object == nullptr)
-- 
2.43.0


From 3141baa678ee9d8a3b2aa8b4befcc5e716e5ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 43/69] fix: reverseLongDouble swapped the halves of elements
 handled by AVX2

---
 pyfastutil/src/utils/include/qreverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/utils/include/qreverse.hpp b/pyfastutil/src/utils/include/qreverse.hpp
index a522d11..a30d352 100644
--- a/pyfastutil/src/utils/include/qreverse.hpp
+++ b/pyfastutil/src/utils/include/qreverse.hpp
@@ -888,8 +888,8 @@ inline void qReverse<16>(void *Array, std::size_t Count) {
                     reinterpret_cast<__m256i *>(&Array128[Count - i - 2])
             );
 
-            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(0, 1, 2, 3));
-            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(0, 1, 2, 3));
+            Lower = _mm256_permute4x64_epi64(Lower, _MM_SHUFFLE(1, 0, 3, 2));
+            Upper = _mm256_permute4x64_epi64(Upper, _MM_SHUFFLE(1, 0, 3, 2));
 
             // Place them at their swapped position
             _mm256_storeu_si256(
-- 
2.43.0


From d4d326183f2b7367b2000ac9df8cdcf300ac1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 44/69] fix: float arguments of SIMDLowAVX512 methods were read
 without checking that they are floats

---
 pyfastutil/src/unsafe/SIMDLowAVX512.cpp | 68 ++++++++++++-------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
index ff7cad1..76e464c 100644
--- a/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
+++ b/pyfastutil/src/unsafe/SIMDLowAVX512.cpp
@@ -239,14 +239,14 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_pd_impl([[maybe_unused]]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    double arg5 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    double arg6 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    double arg7 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    double arg8 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    double arg5 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    double arg6 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    double arg7 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    double arg8 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 8));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4, (double) arg5, (double) arg6, (double) arg7, (double) arg8);
 
@@ -264,22 +264,22 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set_ps_impl([[maybe_unused]]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
-    float arg5 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 5));
-    float arg6 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 6));
-    float arg7 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 7));
-    float arg8 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 8));
-    float arg9 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 9));
-    float arg10 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 10));
-    float arg11 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 11));
-    float arg12 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 12));
-    float arg13 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 13));
-    float arg14 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 14));
-    float arg15 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 15));
-    float arg16 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 16));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
+    float arg5 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 5));
+    float arg6 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 6));
+    float arg7 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 7));
+    float arg8 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 8));
+    float arg9 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 9));
+    float arg10 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 10));
+    float arg11 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 11));
+    float arg12 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 12));
+    float arg13 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 13));
+    float arg14 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 14));
+    float arg15 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 15));
+    float arg16 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 16));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4, (float) arg5, (float) arg6, (float) arg7, (float) arg8, (float) arg9, (float) arg10, (float) arg11, (float) arg12, (float) arg13, (float) arg14, (float) arg15, (float) arg16);
 
@@ -384,7 +384,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set1_pd((double) arg1);
 
@@ -402,7 +402,7 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set1_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set1_ps((float) arg1);
 
@@ -451,10 +451,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_pd_impl([[maybe_unused]
         return nullptr;
     }
 
-    double arg1 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    double arg2 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    double arg3 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    double arg4 = (double) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    double arg1 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    double arg2 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    double arg3 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    double arg4 = (double) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512d *) PyLong_AsVoidPtr(*args)) = _mm512_set4_pd((double) arg1, (double) arg2, (double) arg3, (double) arg4);
 
@@ -472,10 +472,10 @@ static __forceinline PyObject *SIMDLowAVX512__mm512_set4_ps_impl([[maybe_unused]
         return nullptr;
     }
 
-    float arg1 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 1));
-    float arg2 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 2));
-    float arg3 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 3));
-    float arg4 = (float) (float) PyFloat_AS_DOUBLE(*(((PyObject **) args) + 4));
+    float arg1 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 1));
+    float arg2 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 2));
+    float arg3 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 3));
+    float arg4 = (float) (float) PyFloat_AsDouble(*(((PyObject **) args) + 4));
 
     *((__m512 *) PyLong_AsVoidPtr(*args)) = _mm512_set4_ps((float) arg1, (float) arg2, (float) arg3, (float) arg4);
 
-- 
2.43.0


From 53dd974d601be9158be8273c7972abf17dee3747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 45/69] fix: object containers in reference cycles were never
 freed, and dropping deeply nested ones overflowed the stack

---
 pyfastutil/src/objects/ObjectArrayList.cpp    | 30 ++++++++++++++++--
 .../src/objects/ObjectArrayListIter.cpp       | 14 +++++++--
 pyfastutil/src/objects/ObjectLinkedList.cpp   | 31 +++++++++++++++++--
 .../src/objects/ObjectLinkedListIter.cpp      | 14 +++++++--
 4 files changed, 77 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 48d4ead..0dd5b15 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -121,12 +121,34 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
     return 0;
 }
 
+static int ObjectArrayList_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
+    for (PyObject *item: self->vector) {
+        Py_VISIT(item);
+    }
+    return 0;
+}
+
+static int ObjectArrayList_tp_clear(PyObject *pySelf) {
+    auto *self = reinterpret_cast<ObjectArrayList *>(pySelf);
+
+    std::vector<PyObject *> old;
+    old.swap(self->vector);
+    for (PyObject *item: old) {
+        Py_XDECREF(item);
+    }
+    return 0;
+}
+
 static void ObjectArrayList_dealloc(ObjectArrayList *self) {
+    PyObject_GC_UnTrack(self);
+    Py_TRASHCAN_BEGIN(self, ObjectArrayList_dealloc)  // a chain of containers must not exhaust the stack
     for (PyObject *item: self->vector) {
         SAFE_DECREF(item);
     }
     self->vector.~vector();
     Py_TYPE(self)->tp_free((PyObject *) self);
+    Py_TRASHCAN_END
 }
 
 static PyObject *ObjectArrayList_resize(PyObject *pySelf, PyObject *pySize) {
@@ -199,7 +221,7 @@ static PyObject *ObjectArrayList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -1144,7 +1166,7 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_name = "ObjectArrayList";
     type.tp_basicsize = sizeof(ObjectArrayList);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_as_sequence = &ObjectArrayList_asSequence;
     type.tp_as_mapping = &ObjectArrayList_asMapping;
     type.tp_iter = ObjectArrayList_iter;
@@ -1153,7 +1175,9 @@ void initializeObjectArrayListType(PyTypeObject &type) {
     type.tp_new = ObjectArrayList_new;
     type.tp_dealloc = (destructor) ObjectArrayList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = ObjectArrayList_traverse;
+    type.tp_clear = ObjectArrayList_tp_clear;
     type.tp_hash = PyObject_HashNotImplemented;
     type.tp_richcompare = ObjectArrayList_compare;
     type.tp_repr = ObjectArrayList_repr;
diff --git a/pyfastutil/src/objects/ObjectArrayListIter.cpp b/pyfastutil/src/objects/ObjectArrayListIter.cpp
index 0414f53..8009561 100644
--- a/pyfastutil/src/objects/ObjectArrayListIter.cpp
+++ b/pyfastutil/src/objects/ObjectArrayListIter.cpp
@@ -12,7 +12,7 @@ static PyTypeObject ObjectArrayListIterType = {
 };
 
 ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reversed) {
-    auto *instance = Py_CreateObjNoInit<ObjectArrayListIter>(ObjectArrayListIterType);
+    auto *instance = PyObject_GC_New(ObjectArrayListIter, &ObjectArrayListIterType);
     if (instance == nullptr) return nullptr;
 
     Py_INCREF(list);
@@ -25,10 +25,17 @@ ObjectArrayListIter *ObjectArrayListIter_create(ObjectArrayList *list, bool reve
         instance->reversed = false;
     }
 
+    PyObject_GC_Track(instance);
     return instance;
 }
 
+static int ObjectArrayListIter_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    Py_VISIT(reinterpret_cast<ObjectArrayListIter *>(pySelf)->container);
+    return 0;
+}
+
 static void ObjectArrayListIter_dealloc(ObjectArrayListIter *self) {
+    PyObject_GC_UnTrack(self);
     SAFE_DECREF(self->container);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -85,13 +92,14 @@ void initializeObjectArrayListIterType(PyTypeObject &type) {
     type.tp_name = "ObjectArrayListIter";
     type.tp_basicsize = sizeof(ObjectArrayListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_iter = ObjectArrayListIter_iter;
     type.tp_iternext = ObjectArrayListIter_next;
     type.tp_methods = ObjectArrayListIter_methods;
     type.tp_dealloc = (destructor) ObjectArrayListIter_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = ObjectArrayListIter_traverse;
 }
 
 #pragma clang diagnostic push
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index b8e8402..131b543 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -95,12 +95,35 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
     return 0;
 }
 
+static int ObjectLinkedList_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
+    for (PyObject *item: self->list) {
+        Py_VISIT(item);
+    }
+    return 0;
+}
+
+static int ObjectLinkedList_tp_clear(PyObject *pySelf) {
+    auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
+
+    std::list<PyObject *> old;
+    old.swap(self->list);
+    self->modCount++;
+    for (PyObject *item: old) {
+        Py_XDECREF(item);
+    }
+    return 0;
+}
+
 static void ObjectLinkedList_dealloc(ObjectLinkedList *self) {
+    PyObject_GC_UnTrack(self);
+    Py_TRASHCAN_BEGIN(self, ObjectLinkedList_dealloc)  // a chain of containers must not exhaust the stack
     for (PyObject *item: self->list) {
         SAFE_DECREF(item);
     }
     self->list.~list();
     Py_TYPE(self)->tp_free((PyObject *) self);
+    Py_TRASHCAN_END
 }
 
 static PyObject *ObjectLinkedList_to_list(PyObject *pySelf) {
@@ -137,7 +160,7 @@ static PyObject *ObjectLinkedList_copy(PyObject *pySelf) {
             Py_INCREF(item);
         }
     } catch (const std::exception &e) {
-        PyObject_Del(copy);
+        SAFE_DECREF(copy);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return nullptr;
     }
@@ -1092,7 +1115,7 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_name = "ObjectLinkedList";
     type.tp_basicsize = sizeof(ObjectLinkedList);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_as_sequence = &ObjectLinkedList_asSequence;
     type.tp_as_mapping = &ObjectLinkedList_asMapping;
     type.tp_iter = ObjectLinkedList_iter;
@@ -1101,7 +1124,9 @@ void initializeObjectLinkedListType(PyTypeObject &type) {
     type.tp_new = ObjectLinkedList_new;
     type.tp_dealloc = (destructor) ObjectLinkedList_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = ObjectLinkedList_traverse;
+    type.tp_clear = ObjectLinkedList_tp_clear;
     type.tp_hash = PyObject_HashNotImplemented;
     type.tp_richcompare = ObjectLinkedList_compare;
     type.tp_repr = ObjectLinkedList_repr;
diff --git a/pyfastutil/src/objects/ObjectLinkedListIter.cpp b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
index ec7981a..978734b 100644
--- a/pyfastutil/src/objects/ObjectLinkedListIter.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedListIter.cpp
@@ -13,7 +13,7 @@ static PyTypeObject ObjectLinkedListIterType = {
 };
 
 ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool reversed) {
-    auto *instance = Py_CreateObjNoInit<ObjectLinkedListIter>(ObjectLinkedListIterType);
+    auto *instance = PyObject_GC_New(ObjectLinkedListIter, &ObjectLinkedListIterType);
     if (instance == nullptr) return nullptr;
 
     Py_INCREF(list);
@@ -29,10 +29,17 @@ ObjectLinkedListIter *ObjectLinkedListIter_create(ObjectLinkedList *list, bool r
     }
     instance->cacheModCount = list->modCount;
 
+    PyObject_GC_Track(instance);
     return instance;
 }
 
+static int ObjectLinkedListIter_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    Py_VISIT(reinterpret_cast<ObjectLinkedListIter *>(pySelf)->container);
+    return 0;
+}
+
 static void ObjectLinkedListIter_dealloc(ObjectLinkedListIter *self) {
+    PyObject_GC_UnTrack(self);
     SAFE_DECREF(self->container);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -101,13 +108,14 @@ void initializeObjectLinkedListIterType(PyTypeObject &type) {
     type.tp_name = "ObjectLinkedListIter";
     type.tp_basicsize = sizeof(ObjectLinkedListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_iter = ObjectLinkedListIter_iter;
     type.tp_iternext = ObjectLinkedListIter_next;
     type.tp_methods = ObjectLinkedListIter_methods;
     type.tp_dealloc = (destructor) ObjectLinkedListIter_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = ObjectLinkedListIter_traverse;
 }
 
 #pragma clang diagnostic push
-- 
2.43.0


From afb771134a909cdc1581dcfc007b97bd8b5884d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 46/69] fix: Unsafe.fputs wrote nothing after a NUL character

---
 pyfastutil/src/unsafe/Unsafe.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 4311f5d..15bc15d 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -324,12 +324,13 @@ static PyObject *Unsafe_fputs([[maybe_unused]] PyObject *pySelf, PyObject *pyStr
         return nullptr;
     }
 
-    const char *str = PyUnicode_AsUTF8(pyStr);
+    Py_ssize_t size;
+    const char *str = PyUnicode_AsUTF8AndSize(pyStr, &size);
     if (str == nullptr) {
         return nullptr;
     }
 
-    fputs(str, stdout);
+    fwrite(str, 1, (size_t) size, stdout);
 
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 0b327e36f628673b3fde0bc7ba1c1a188ae79d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 47/69] fix: Unsafe.fgets lost input that ended inside a
 character or held a NUL, and misread large buffer sizes

---
 pyfastutil/src/unsafe/Unsafe.cpp | 47 ++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/unsafe/Unsafe.cpp b/pyfastutil/src/unsafe/Unsafe.cpp
index 15bc15d..6f7eee8 100644
--- a/pyfastutil/src/unsafe/Unsafe.cpp
+++ b/pyfastutil/src/unsafe/Unsafe.cpp
@@ -4,6 +4,8 @@
 
 #include "Unsafe.h"
 #include "mutex"
+#include <cstdio>
+#include <string>
 #include "utils/memory/AlignedAllocator.h"
 #include "utils/memory/FastMemcpy.h"
 #include "utils/PythonUtils.h"
@@ -341,32 +343,53 @@ static PyObject *Unsafe_fflush([[maybe_unused]] PyObject *pySelf) {
     Py_RETURN_NONE;
 }
 
+/**
+ * Number of bytes that the last character of a UTF-8 string lacks.
+ */
+static size_t missingUTF8(const std::string &str) noexcept {
+    for (size_t i = 1; i <= 3 && i <= str.size(); ++i) {
+        const auto byte = (unsigned char) str[str.size() - i];
+        if ((byte & 0xC0) == 0x80) continue;  // continuation byte
+
+        const size_t length = byte >= 0xF0 ? 4 : byte >= 0xE0 ? 3 : byte >= 0xC0 ? 2 : 1;
+        return length > i ? length - i : 0;
+    }
+    return 0;
+}
+
 static PyObject *Unsafe_fgets([[maybe_unused]] PyObject *pySelf, PyObject *pyBufferSize) {
     if (!PyLong_Check(pyBufferSize)) {
         PyErr_SetString(PyExc_TypeError, "Argument must be an integer.");
         return nullptr;
     }
 
-    int bufferSize = (int) PyLong_AsLong(pyBufferSize);
+    const long bufferSize = PyLong_AsLong(pyBufferSize);
+    if (bufferSize == -1 && PyErr_Occurred()) {
+        return nullptr;
+    }
     if (bufferSize <= 0) {
         PyErr_SetString(PyExc_ValueError, "Buffer size must be positive.");
         return nullptr;
     }
 
-    char *buffer = new char[bufferSize];
+    try {
+        std::string buffer;
+        int ch = 0;
+        while (buffer.size() < (size_t) bufferSize - 1 && ch != '\n' && (ch = getc(stdin)) != EOF) {
+            buffer.push_back((char) ch);
+        }
+        for (size_t missing = missingUTF8(buffer); missing > 0 && (ch = getc(stdin)) != EOF; missing--) {
+            buffer.push_back((char) ch);
+        }
 
-    if (fgets(buffer, bufferSize, stdin) == nullptr) {
-        delete[] buffer;
-        if (feof(stdin)) {
-            return PyUnicode_FromString("");
+        if (ch == EOF && ferror(stdin)) {
+            PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
+            return nullptr;
         }
-        PyErr_SetString(PyExc_RuntimeError, "Error reading from stdin.");
-        return nullptr;
+        return PyUnicode_FromStringAndSize(buffer.data(), (Py_ssize_t) buffer.size());
+    } catch (const std::exception &) {
+        return PyErr_NoMemory();
     }
-
-    PyObject *result = PyUnicode_FromString(buffer);
-    delete[] buffer;
-    return result;
 }
 
 static PyMethodDef Unsafe_methods[] = {
-- 
2.43.0


From cb6624464faca93261a442458a181c734d3fb6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 48/69] fix: int list iterators in reference cycles were never
 freed

---
 pyfastutil/src/ints/BigIntArrayListIter.cpp | 14 +++++++++++---
 pyfastutil/src/ints/IntArrayListIter.cpp    | 14 +++++++++++---
 pyfastutil/src/ints/IntLinkedListIter.cpp   | 14 +++++++++++---
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayListIter.cpp b/pyfastutil/src/ints/BigIntArrayListIter.cpp
index 104e571..56145ee 100644
--- a/pyfastutil/src/ints/BigIntArrayListIter.cpp
+++ b/pyfastutil/src/ints/BigIntArrayListIter.cpp
@@ -12,7 +12,7 @@ static PyTypeObject BigIntArrayListIterType = {
 };
 
 BigIntArrayListIter *BigIntArrayListIter_create(BigIntArrayList *list, bool reversed) {
-    auto *instance = Py_CreateObjNoInit<BigIntArrayListIter>(BigIntArrayListIterType);
+    auto *instance = PyObject_GC_New(BigIntArrayListIter, &BigIntArrayListIterType);
     if (instance == nullptr) return nullptr;
 
     Py_INCREF(list);
@@ -25,10 +25,17 @@ BigIntArrayListIter *BigIntArrayListIter_create(BigIntArrayList *list, bool reve
         instance->reversed = false;
     }
 
+    PyObject_GC_Track(instance);
     return instance;
 }
 
+static int BigIntArrayListIter_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    Py_VISIT(reinterpret_cast<BigIntArrayListIter *>(pySelf)->container);
+    return 0;
+}
+
 static void BigIntArrayListIter_dealloc(BigIntArrayListIter *self) {
+    PyObject_GC_UnTrack(self);
     SAFE_DECREF(self->container);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -82,13 +89,14 @@ void initializeBigIntArrayListIterType(PyTypeObject &type) {
     type.tp_name = "BigIntArrayListIter";
     type.tp_basicsize = sizeof(BigIntArrayListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_iter = BigIntArrayListIter_iter;
     type.tp_iternext = BigIntArrayListIter_next;
     type.tp_methods = BigIntArrayListIter_methods;
     type.tp_dealloc = (destructor) BigIntArrayListIter_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = BigIntArrayListIter_traverse;
 }
 
 #pragma clang diagnostic push
diff --git a/pyfastutil/src/ints/IntArrayListIter.cpp b/pyfastutil/src/ints/IntArrayListIter.cpp
index b845cef..732b0bf 100644
--- a/pyfastutil/src/ints/IntArrayListIter.cpp
+++ b/pyfastutil/src/ints/IntArrayListIter.cpp
@@ -12,7 +12,7 @@ static PyTypeObject IntArrayListIterType = {
 };
 
 IntArrayListIter *IntArrayListIter_create(IntArrayList *list, bool reversed) {
-    auto *instance = Py_CreateObjNoInit<IntArrayListIter>(IntArrayListIterType);
+    auto *instance = PyObject_GC_New(IntArrayListIter, &IntArrayListIterType);
     if (instance == nullptr) return nullptr;
 
     Py_INCREF(list);
@@ -25,10 +25,17 @@ IntArrayListIter *IntArrayListIter_create(IntArrayList *list, bool reversed) {
         instance->reversed = false;
     }
 
+    PyObject_GC_Track(instance);
     return instance;
 }
 
+static int IntArrayListIter_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    Py_VISIT(reinterpret_cast<IntArrayListIter *>(pySelf)->container);
+    return 0;
+}
+
 static void IntArrayListIter_dealloc(IntArrayListIter *self) {
+    PyObject_GC_UnTrack(self);
     SAFE_DECREF(self->container);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -82,13 +89,14 @@ void initializeIntArrayListIterType(PyTypeObject &type) {
     type.tp_name = "IntArrayListIter";
     type.tp_basicsize = sizeof(IntArrayListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_iter = IntArrayListIter_iter;
     type.tp_iternext = IntArrayListIter_next;
     type.tp_methods = IntArrayListIter_methods;
     type.tp_dealloc = (destructor) IntArrayListIter_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = IntArrayListIter_traverse;
 }
 
 #pragma clang diagnostic push
diff --git a/pyfastutil/src/ints/IntLinkedListIter.cpp b/pyfastutil/src/ints/IntLinkedListIter.cpp
index 514226b..7108409 100644
--- a/pyfastutil/src/ints/IntLinkedListIter.cpp
+++ b/pyfastutil/src/ints/IntLinkedListIter.cpp
@@ -13,7 +13,7 @@ static PyTypeObject IntLinkedListIterType = {
 };
 
 IntLinkedListIter *IntLinkedListIter_create(IntLinkedList *list, bool reversed) {
-    auto *instance = Py_CreateObjNoInit<IntLinkedListIter>(IntLinkedListIterType);
+    auto *instance = PyObject_GC_New(IntLinkedListIter, &IntLinkedListIterType);
     if (instance == nullptr) return nullptr;
 
     Py_INCREF(list);
@@ -29,10 +29,17 @@ IntLinkedListIter *IntLinkedListIter_create(IntLinkedList *list, bool reversed)
     }
     instance->cacheModCount = list->modCount;
 
+    PyObject_GC_Track(instance);
     return instance;
 }
 
+static int IntLinkedListIter_traverse(PyObject *pySelf, visitproc visit, void *arg) {
+    Py_VISIT(reinterpret_cast<IntLinkedListIter *>(pySelf)->container);
+    return 0;
+}
+
 static void IntLinkedListIter_dealloc(IntLinkedListIter *self) {
+    PyObject_GC_UnTrack(self);
     SAFE_DECREF(self->container);
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
@@ -98,13 +105,14 @@ void initializeIntLinkedListIterType(PyTypeObject &type) {
     type.tp_name = "IntLinkedListIter";
     type.tp_basicsize = sizeof(IntLinkedListIter);
     type.tp_itemsize = 0;
-    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
+    type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC;
     type.tp_iter = IntLinkedListIter_iter;
     type.tp_iternext = IntLinkedListIter_next;
     type.tp_methods = IntLinkedListIter_methods;
     type.tp_dealloc = (destructor) IntLinkedListIter_dealloc;
     type.tp_alloc = PyType_GenericAlloc;
-    type.tp_free = PyObject_Del;
+    type.tp_free = PyObject_GC_Del;
+    type.tp_traverse = IntLinkedListIter_traverse;
 }
 
 #pragma clang diagnostic push
-- 
2.43.0


From 17ea0b91d0fe30a999e0c63964edd5da9e3a2378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 49/69] fix: isAVX512Supported did not check that the OS
 enabled the AVX-512 registers

---
 pyfastutil/src/utils/simd/SIMDHelper.cpp | 30 ++++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyfastutil/src/utils/simd/SIMDHelper.cpp b/pyfastutil/src/utils/simd/SIMDHelper.cpp
index 98960df..f189712 100644
--- a/pyfastutil/src/utils/simd/SIMDHelper.cpp
+++ b/pyfastutil/src/utils/simd/SIMDHelper.cpp
@@ -4,8 +4,8 @@
 
 #include "SIMDHelper.h"
 
-// Helper function to check OS support for AVX (via XGETBV)
-bool osSupportsAVX();
+// Helper function to check OS support for AVX, or for the given register states (via XGETBV)
+bool osSupportsAVX(unsigned long long states = 0x6);
 
 // Function to check if AVX2 is supported
 bool isAVX2Supported();
@@ -28,7 +28,7 @@ bool isArmNeonSupported();
 
 #include <intrin.h>  // For __cpuid() and _xgetbv()
 
-bool osSupportsAVX() {
+bool osSupportsAVX(unsigned long long states) {
     int cpuInfo[4];
     __cpuid(cpuInfo, 1);
 
@@ -40,8 +40,8 @@ bool osSupportsAVX() {
     // Use _xgetbv to check if OS supports AVX (XMM and YMM)
     unsigned long long xcrFeatureMask = _xgetbv(0);
 
-    // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6;
+    // Check if XMM (bit 1) and YMM (bit 2) state, or whatever is asked for, are enabled by OS
+    return (xcrFeatureMask & states) == states;
 }
 
 bool isAVX2Supported() {
@@ -118,7 +118,7 @@ bool isArmNeonSupported() {
 
 #include <cpuid.h>  // For __get_cpuid() and __get_cpuid_count()
 
-bool osSupportsAVX() {
+bool osSupportsAVX(unsigned long long states) {
     // Ensure CPU supports XGETBV (XSAVE/XRSTOR)
     unsigned int cpuid_eax, cpuid_ebx, cpuid_ecx, cpuid_edx;
     __get_cpuid(1, &cpuid_eax, &cpuid_ebx, &cpuid_ecx, &cpuid_edx);
@@ -132,8 +132,8 @@ bool osSupportsAVX() {
 #elif defined(__GNUC__) && (__GNUC__ >= 8)
     // GCC 8+ has __builtin_ia32_xgetbv()
     unsigned long long xcrFeatureMask = __builtin_ia32_xgetbv(0);
-    // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6; // Both XMM and YMM must be enabled
+    // Check if XMM (bit 1) and YMM (bit 2) state, or whatever is asked for, are enabled by OS
+    return (xcrFeatureMask & states) == states; // All of them must be enabled
 #else
     __asm__ __volatile__(
             "xgetbv"
@@ -141,8 +141,8 @@ bool osSupportsAVX() {
             : "c"(0)
         );
     unsigned long long xcrFeatureMask = ((unsigned long long)edx << 32) | eax;
-    // Check if XMM (bit 1) and YMM (bit 2) state are enabled by OS
-    return (xcrFeatureMask & 0x6) == 0x6; // Both XMM and YMM must be enabled
+    // Check if XMM (bit 1) and YMM (bit 2) state, or whatever is asked for, are enabled by OS
+    return (xcrFeatureMask & states) == states; // All of them must be enabled
 #endif
 }
 
@@ -187,9 +187,9 @@ bool isAVX512Supported() {
         return false; // AVX or XSAVE not supported
     }
 
-    // Check OS support for AVX using XGETBV
-    if (!osSupportsAVX()) {
-        return false; // OS does not support AVX
+    // Check OS support for AVX-512 using XGETBV: opmask, ZMM_Hi256 and Hi16_ZMM state besides XMM and YMM
+    if (!osSupportsAVX(0xE6)) {
+        return false; // OS does not support AVX-512
     }
 
     // Now check for AVX-512 support (CPUID leaf 7, sub-leaf 0, EBX bit 16)
@@ -228,7 +228,7 @@ bool isArmNeonSupported() {
 
 #else
 // For unknown compiler, SIMD support is unknown, default is unsupported.
-bool osSupportsAVX() {
+bool osSupportsAVX([[maybe_unused]] unsigned long long states) {
     return false;
 }
 
@@ -260,7 +260,7 @@ bool isArmNeonSupported() {
 #include <string>
 
 // For non-x86 architectures, AVX/SSE is not supported
-bool osSupportsAVX() {
+bool osSupportsAVX([[maybe_unused]] unsigned long long states) {
     return false;
 }
 
-- 
2.43.0


From 21d0a93c7815b32cc09d424cc23005ee5cab7e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 50/69] fix: extending an array list by a few elements copied
 the whole list each time

---
 pyfastutil/src/ints/BigIntArrayList.cpp    | 12 ++++++++----
 pyfastutil/src/ints/IntArrayList.cpp       | 12 ++++++++----
 pyfastutil/src/objects/ObjectArrayList.cpp | 12 ++++++++----
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4f5be4e..4adc094 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -284,8 +284,10 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     }
 
     try {
-        if (hint > 0) {
-            self->vector.reserve(self->vector.size() + hint);
+        // grow geometrically, or appending a few elements at a time would copy the list each time
+        const size_t needed = self->vector.size() + static_cast<size_t>(hint);
+        if (needed > self->vector.capacity()) {
+            self->vector.reserve(std::max(needed, self->vector.capacity() * 2));
         }
 
         // do extend
@@ -809,8 +811,10 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     }
 
     try {
-        if (hint > 0) {
-            self->vector.reserve(self->vector.size() + hint);
+        // grow geometrically, or appending a few elements at a time would copy the list each time
+        const size_t needed = self->vector.size() + static_cast<size_t>(hint);
+        if (needed > self->vector.capacity()) {
+            self->vector.reserve(std::max(needed, self->vector.capacity() * 2));
         }
 
         // do extend
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index f54e317..a7ea75b 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -284,8 +284,10 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     }
 
     try {
-        if (hint > 0) {
-            self->vector.reserve(self->vector.size() + hint);
+        // grow geometrically, or appending a few elements at a time would copy the list each time
+        const size_t needed = self->vector.size() + static_cast<size_t>(hint);
+        if (needed > self->vector.capacity()) {
+            self->vector.reserve(std::max(needed, self->vector.capacity() * 2));
         }
 
         // do extend
@@ -807,8 +809,10 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     }
 
     try {
-        if (hint > 0) {
-            self->vector.reserve(self->vector.size() + hint);
+        // grow geometrically, or appending a few elements at a time would copy the list each time
+        const size_t needed = self->vector.size() + static_cast<size_t>(hint);
+        if (needed > self->vector.capacity()) {
+            self->vector.reserve(std::max(needed, self->vector.capacity() * 2));
         }
 
         // do extend
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 0dd5b15..bb57080 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -293,8 +293,10 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     }
 
     try {
-        if (hint > 0) {
-            self->vector.reserve(self->vector.size() + hint);
+        // grow geometrically, or appending a few elements at a time would copy the list each time
+        const size_t needed = self->vector.size() + static_cast<size_t>(hint);
+        if (needed > self->vector.capacity()) {
+            self->vector.reserve(std::max(needed, self->vector.capacity() * 2));
         }
     } catch (const std::exception &e) {
         SAFE_DECREF(iter);
@@ -812,8 +814,10 @@ static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     }
 
     try {
-        if (hint > 0) {
-            self->vector.reserve(self->vector.size() + hint);
+        // grow geometrically, or appending a few elements at a time would copy the list each time
+        const size_t needed = self->vector.size() + static_cast<size_t>(hint);
+        if (needed > self->vector.capacity()) {
+            self->vector.reserve(std::max(needed, self->vector.capacity() * 2));
         }
     } catch (const std::exception &e) {
         SAFE_DECREF(iter);
-- 
2.43.0


From 0b2a1a81cf80e5acdd6361da3fa98537920863fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 51/69] fix: deleting an extended slice of an array list took
 quadratic time

---
 pyfastutil/src/ints/BigIntArrayList.cpp    | 9 +++++++--
 pyfastutil/src/ints/IntArrayList.cpp       | 9 +++++++--
 pyfastutil/src/objects/ObjectArrayList.cpp | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4adc094..48737a1 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -688,9 +688,14 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         if (step == 1) {
             self->vector.erase(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
         } else {
-            for (Py_ssize_t i = sliceLength - 1; i >= 0; i--) {
-                self->vector.erase(self->vector.begin() + start + i * step);
+            // move each run of kept elements down once
+            auto target = self->vector.begin() + start;
+            for (Py_ssize_t i = 0; i < sliceLength; i++) {
+                const auto first = self->vector.begin() + start + i * step + 1;
+                const auto last = i + 1 < sliceLength ? first + (step - 1) : self->vector.end();
+                target = std::copy(first, last, target);
             }
+            self->vector.erase(target, self->vector.end());
         }
         return 0;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index a7ea75b..b024e6c 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -686,9 +686,14 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         if (step == 1) {
             self->vector.erase(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
         } else {
-            for (Py_ssize_t i = sliceLength - 1; i >= 0; i--) {
-                self->vector.erase(self->vector.begin() + start + i * step);
+            // move each run of kept elements down once
+            auto target = self->vector.begin() + start;
+            for (Py_ssize_t i = 0; i < sliceLength; i++) {
+                const auto first = self->vector.begin() + start + i * step + 1;
+                const auto last = i + 1 < sliceLength ? first + (step - 1) : self->vector.end();
+                target = std::copy(first, last, target);
             }
+            self->vector.erase(target, self->vector.end());
         }
         return 0;
     }
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index bb57080..89e40c1 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -682,9 +682,14 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         if (step == 1) {
             self->vector.erase(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
         } else {
-            for (Py_ssize_t i = sliceLength - 1; i >= 0; i--) {
-                self->vector.erase(self->vector.begin() + start + i * step);
+            // move each run of kept elements down once
+            auto target = self->vector.begin() + start;
+            for (Py_ssize_t i = 0; i < sliceLength; i++) {
+                const auto first = self->vector.begin() + start + i * step + 1;
+                const auto last = i + 1 < sliceLength ? first + (step - 1) : self->vector.end();
+                target = std::copy(first, last, target);
             }
+            self->vector.erase(target, self->vector.end());
         }
         for (const auto &item: removed) {
             Py_DECREF(item);
-- 
2.43.0


From 91416902062e2a9f2c489f37ecc35e51ed6221ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 52/69] fix: slicing a linked list searched for each element
 from an end

---
 pyfastutil/src/ints/IntLinkedList.cpp       | 7 +++++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 1cfd9e5..f628542 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -547,9 +547,12 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
         return nullptr;
     }
 
+    auto iter = at(self->list, static_cast<size_t>(start));
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
-        Py_ssize_t index = start + i * step;
-        PyObject *item = PyFast_FromInt(*at(self->list, static_cast<size_t>(index)));
+        if (i > 0) {
+            std::advance(iter, step);
+        }
+        PyObject *item = PyFast_FromInt(*iter);
         if (item == nullptr) {
             SAFE_DECREF(result);
             return nullptr;
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 131b543..90c81cc 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -547,9 +547,12 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
         return nullptr;
     }
 
+    auto iter = at(self->list, static_cast<size_t>(start));
     for (Py_ssize_t i = 0; i < sliceLength; i++) {
-        Py_ssize_t index = start + i * step;
-        PyObject *item = *at(self->list, static_cast<size_t>(index));
+        if (i > 0) {
+            std::advance(iter, step);
+        }
+        PyObject *item = *iter;
         Py_INCREF(item);
         if (item == nullptr) {
             SAFE_DECREF(result);
-- 
2.43.0


From 6156fb7c579eabcbb21dbdaac7825476ec61e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 53/69] fix: comparing two object linked lists took quadratic
 time

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 23 +++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 90c81cc..9a58213 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -920,6 +920,15 @@ static PyObject *ObjectLinkedList_clear(PyObject *pySelf) {
 static PyObject *ObjectLinkedList_compareSequence(PyObject *pySelf, PyObject *pyValue, int op) {
     auto *self = reinterpret_cast<ObjectLinkedList *>(pySelf);
 
+    // walk the nodes of another linked list too: finding each item by its index would take quadratic time
+    auto *other = Py_TYPE(pyValue) == &ObjectLinkedListType ? reinterpret_cast<ObjectLinkedList *>(pyValue) : nullptr;
+    std::list<PyObject *>::iterator otherIter;
+    uint64_t otherModCount = 0;
+    if (other != nullptr) {
+        otherIter = other->list.begin();
+        otherModCount = other->modCount;
+    }
+
     auto iter = self->list.begin();
     auto modCount = self->modCount;
     for (Py_ssize_t i = 0;; ++i) {
@@ -934,8 +943,18 @@ static PyObject *ObjectLinkedList_compareSequence(PyObject *pySelf, PyObject *py
             Py_RETURN_RICHCOMPARE(selfSize, seqSize, op);
         }
 
-        PyObject *item = PySequence_GetItem(pyValue, i);
-        if (item == nullptr) return nullptr;
+        PyObject *item;
+        if (other != nullptr) {
+            if (other->modCount != otherModCount) {  // a comparison changed the other list
+                otherIter = at(other->list, static_cast<size_t>(i));
+                otherModCount = other->modCount;
+            }
+            item = *otherIter++;
+            Py_INCREF(item);
+        } else {
+            item = PySequence_GetItem(pyValue, i);
+            if (item == nullptr) return nullptr;
+        }
 
         // the sequence may have changed this list
         selfSize = static_cast<Py_ssize_t>(self->list.size());
-- 
2.43.0


From 2001d66ea01f925c8649e6f07977ba7c8cf061bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 54/69] fix: extending an integer list aborted the process when
 memory ran out

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 14 ++++++++++--
 pyfastutil/src/ints/IntArrayList.cpp    | 14 ++++++++++--
 pyfastutil/src/ints/IntLinkedList.cpp   | 30 +++++++++++++++++++++----
 3 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 48737a1..8aee72d 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -266,7 +266,12 @@ static PyObject *BigIntArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -797,7 +802,12 @@ static PyObject *BigIntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &BigIntArrayListType) {
         auto *iter = reinterpret_cast<BigIntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_INCREF(pySelf);
         return pySelf;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index b024e6c..bf3001e 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -266,7 +266,12 @@ static PyObject *IntArrayList_extend(PyObject *pySelf, PyObject *const *args, co
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_RETURN_NONE;
     }
 
@@ -795,7 +800,12 @@ static PyObject *IntArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &IntArrayListType) {
         auto *iter = reinterpret_cast<IntArrayList *>(iterable);
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        try {
+            self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         Py_INCREF(pySelf);
         return pySelf;
     }
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index f628542..284c793 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -220,7 +220,12 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+        try {
+            self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         self->modCount++;
         Py_RETURN_NONE;
     }
@@ -242,7 +247,13 @@ static PyObject *IntLinkedList_extend(PyObject *pySelf, PyObject *const *args, c
             return nullptr;
         }
 
-        self->list.push_back(value);
+        try {
+            self->list.push_back(value);
+        } catch (const std::exception &e) {
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         self->modCount++;
     }
 
@@ -736,7 +747,12 @@ static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &IntLinkedListType) {
         auto *iter = reinterpret_cast<IntLinkedList *>(iterable);
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+        try {
+            self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         self->modCount++;
         Py_INCREF(pySelf);
         return pySelf;
@@ -759,7 +775,13 @@ static PyObject *IntLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
             return nullptr;
         }
 
-        self->list.push_back(value);
+        try {
+            self->list.push_back(value);
+        } catch (const std::exception &e) {
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         self->modCount++;
     }
 
-- 
2.43.0


From 9bd0d9266966ebdb32e36f72e7813afb8e03b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 55/69] fix: repr of an integer list aborted the process when
 memory ran out

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 5 ++++-
 pyfastutil/src/ints/IntArrayList.cpp    | 5 ++++-
 pyfastutil/src/ints/IntLinkedList.cpp   | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 8aee72d..606fa94 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -1181,7 +1181,7 @@ static PyObject *BigIntArrayList_class_getitem(PyObject *cls, PyObject *item) {
 }
 #endif
 
-static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
+static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) try {
     auto *self = reinterpret_cast<BigIntArrayList *>(pySelf);
 
     const auto &vec = self->vector;
@@ -1210,6 +1210,9 @@ static __forceinline PyObject *BigIntArrayList_repr(PyObject *pySelf) {
     str += "]";
 
     return PyUnicode_FromString(str.c_str());
+} catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return nullptr;
 }
 
 static PyObject *BigIntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index bf3001e..dc712c4 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -1179,7 +1179,7 @@ static PyObject *IntArrayList_class_getitem(PyObject *cls, PyObject *item) {
 }
 #endif
 
-static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
+static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) try {
     auto *self = reinterpret_cast<IntArrayList *>(pySelf);
 
     const auto &vec = self->vector;
@@ -1208,6 +1208,9 @@ static __forceinline PyObject *IntArrayList_repr(PyObject *pySelf) {
     str += "]";
 
     return PyUnicode_FromString(str.c_str());
+} catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return nullptr;
 }
 
 static PyObject *IntArrayList_str(PyObject *pySelf) {
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 284c793..0e71c30 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -1084,7 +1084,7 @@ static PyObject *IntLinkedList_class_getitem(PyObject *cls, PyObject *item) {
 }
 #endif
 
-static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
+static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) try {
     auto *self = reinterpret_cast<IntLinkedList *>(pySelf);
 
     auto &vec = self->list;
@@ -1114,6 +1114,9 @@ static __forceinline PyObject *IntLinkedList_repr(PyObject *pySelf) {
     str += "]";
 
     return PyUnicode_FromString(str.c_str());
+} catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return nullptr;
 }
 
 static PyObject *IntLinkedList_str(PyObject *pySelf) {
-- 
2.43.0


From b068a9d852a2c540b46f9dc374e179b2801d16bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 56/69] fix: a constructor that ran out of memory leaked its
 iterable and items

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 10 +++++++---
 pyfastutil/src/ints/IntArrayList.cpp        | 10 +++++++---
 pyfastutil/src/ints/IntLinkedList.cpp       | 10 +++++++---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 15 ++++++++++-----
 pyfastutil/src/objects/ObjectLinkedList.cpp | 13 +++++++++----
 5 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 606fa94..01f3494 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -62,6 +62,8 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
     }
 
     // init vector
+    PyObject *fastKeys = nullptr;
+    PyObject *iter = nullptr;
     try {
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
@@ -75,7 +77,7 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (BigIntArrayList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
@@ -97,7 +99,7 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
@@ -112,13 +114,15 @@ static int BigIntArrayList_init(BigIntArrayList *self, PyObject *args, PyObject
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C long long during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
                 SAFE_DECREF(item);
+                self->vector.push_back(value);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastKeys);
+        Py_XDECREF(iter);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index dc712c4..6170b87 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -62,6 +62,8 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
     }
 
     // init vector
+    PyObject *fastKeys = nullptr;
+    PyObject *iter = nullptr;
     try {
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
@@ -75,7 +77,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntArrayList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
@@ -97,7 +99,7 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
@@ -112,13 +114,15 @@ static int IntArrayList_init(IntArrayList *self, PyObject *args, PyObject *kwarg
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                     return -1;
                 }
-                self->vector.push_back(value);
                 SAFE_DECREF(item);
+                self->vector.push_back(value);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastKeys);
+        Py_XDECREF(iter);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 0e71c30..b0c59b8 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -44,6 +44,8 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
     }
 
     // init list
+    PyObject *fastKeys = nullptr;
+    PyObject *iter = nullptr;
     try {
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &IntLinkedListType) {  // IntLinkedList is a final class
@@ -53,7 +55,7 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntLinkedList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (IntLinkedList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
@@ -75,7 +77,7 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
@@ -90,13 +92,15 @@ static int IntLinkedList_init(IntLinkedList *self, PyObject *args, PyObject *kwa
                     PyErr_SetString(PyExc_RuntimeError, "Failed to convert item to C int during iteration.");
                     return -1;
                 }
-                self->list.push_back(value);
                 SAFE_DECREF(item);
+                self->list.push_back(value);
             }
             SAFE_DECREF(iter);
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastKeys);
+        Py_XDECREF(iter);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 89e40c1..cc252a5 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -66,6 +66,9 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
     }
 
     // init vector
+    PyObject *fastIter = nullptr;
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pySize > 0) {
             self->vector.reserve(static_cast<size_t>(pySize));
@@ -82,7 +85,7 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastIter = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectArrayList).");
+                fastIter = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectArrayList).");
                 if (fastIter == nullptr) {
                     return -1;
                 }
@@ -90,23 +93,22 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
                 const auto size = PySequence_Fast_GET_SIZE(fastIter);
                 auto items = PySequence_Fast_ITEMS(fastIter);
 
+                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
+
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     Py_INCREF(items[i]);
                 }
 
-                self->vector.insert(self->vector.end(), items, items + size);  // even faster than memcpy!!
-
                 SAFE_DECREF(fastIter);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 self->vector.push_back(item);
             }
@@ -114,6 +116,9 @@ static int ObjectArrayList_init(ObjectArrayList *self, PyObject *args, PyObject
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastIter);
+        Py_XDECREF(iter);
+        Py_XDECREF(item);  // not stored
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 9a58213..1af7640 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -46,6 +46,9 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
     }
 
     // init list
+    PyObject *fastKeys = nullptr;
+    PyObject *iter = nullptr;
+    PyObject *item = nullptr;
     try {
         if (pyIterable != nullptr) {
             if (Py_TYPE(pyIterable) == &ObjectLinkedListType) {  // ObjectLinkedList is a final class
@@ -58,7 +61,7 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
             }
 
             if (PyList_Check(pyIterable) || PyTuple_Check(pyIterable)) {  // fast operation
-                auto fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectLinkedList).");
+                fastKeys = PySequence_Fast(pyIterable, "Shouldn't be happen (ObjectLinkedList).");
                 if (fastKeys == nullptr) {
                     return -1;
                 }
@@ -67,20 +70,19 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
                 auto items = PySequence_Fast_ITEMS(fastKeys);
                 for (Py_ssize_t i = 0; i < size; ++i) {
                     PyObject *value = items[i];
-                    Py_INCREF(value);
                     self->list.push_back(value);
+                    Py_INCREF(value);
                 }
                 SAFE_DECREF(fastKeys);
                 return 0;
             }
 
-            PyObject *iter = PyObject_GetIter(pyIterable);
+            iter = PyObject_GetIter(pyIterable);
             if (iter == nullptr) {
                 PyErr_SetString(PyExc_TypeError, "Arg '__iterable' is not iterable.");
                 return -1;
             }
 
-            PyObject *item;
             while ((item = PyIter_Next(iter)) != nullptr) {
                 self->list.push_back(item);
             }
@@ -88,6 +90,9 @@ static int ObjectLinkedList_init(ObjectLinkedList *self, PyObject *args, PyObjec
             if (PyErr_Occurred()) return -1;
         }
     } catch (const std::exception &e) {
+        Py_XDECREF(fastKeys);
+        Py_XDECREF(iter);
+        Py_XDECREF(item);  // not stored
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return -1;
     }
-- 
2.43.0


From 7c3a681a54ccf94b31f0c7e5f19ed0f655260223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 57/69] fix: extending an object list aborted the process when
 memory ran out

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 51 +++++++++++++++++----
 pyfastutil/src/objects/ObjectLinkedList.cpp | 44 ++++++++++++++----
 2 files changed, 78 insertions(+), 17 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index cc252a5..0d77fd0 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -267,17 +267,29 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &ObjectArrayListType) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        for (const auto &item: iter->vector) {  // before inserting, because iterable may be this list
-            Py_INCREF(item);
+        const size_t added = iter->vector.size();
+        try {
+            self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
+        auto end = self->vector.end();  // iterable may be this list
+        for (size_t i = 0; i < added; ++i) {
+            Py_INCREF(*--end);
         }
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
         Py_RETURN_NONE;
     }
 
     if (Py_TYPE(iterable) == &PyList_Type) {
         const auto *iter = reinterpret_cast<PyListObject *>(iterable);
         const auto last = iter->ob_item + PyList_GET_SIZE(iter);
-        self->vector.insert(self->vector.end(), iter->ob_item, last);
+        try {
+            self->vector.insert(self->vector.end(), iter->ob_item, last);
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         for (PyObject **item = iter->ob_item; item < last; ++item) {
             Py_INCREF(*item);
         }
@@ -317,7 +329,14 @@ static PyObject *ObjectArrayList_extend(PyObject *pySelf, PyObject *const *args,
             return nullptr;
         }
 
-        self->vector.push_back(item);
+        try {
+            self->vector.push_back(item);
+        } catch (const std::exception &e) {
+            SAFE_DECREF(item);
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
     }
 
     if (PyErr_Occurred()) {
@@ -802,10 +821,17 @@ static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &ObjectArrayListType) {
         auto *iter = reinterpret_cast<ObjectArrayList *>(iterable);
-        for (const auto &item: iter->vector) {
-            Py_INCREF(item);
+        const size_t added = iter->vector.size();
+        try {
+            self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
+        auto end = self->vector.end();  // iterable may be this list
+        for (size_t i = 0; i < added; ++i) {
+            Py_INCREF(*--end);
         }
-        self->vector.insert(self->vector.end(), iter->vector.begin(), iter->vector.end());
         Py_INCREF(pySelf);
         return pySelf;
     }
@@ -845,7 +871,14 @@ static PyObject *ObjectArrayList_iadd(PyObject *pySelf, PyObject *iterable) {
             return nullptr;
         }
 
-        self->vector.push_back(value);
+        try {
+            self->vector.push_back(value);
+        } catch (const std::exception &e) {
+            SAFE_DECREF(item);
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
     }
 
     if (PyErr_Occurred()) {
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 1af7640..50c20a8 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -207,11 +207,18 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &ObjectLinkedListType) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        for (const auto &item: iter->list) {  // before inserting, because iterable may be this list
-            Py_INCREF(item);
+        const size_t added = iter->list.size();
+        try {
+            self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
         self->modCount++;
+        auto end = self->list.end();  // iterable may be this list
+        for (size_t i = 0; i < added; ++i) {
+            Py_INCREF(*--end);
+        }
         Py_RETURN_NONE;
     }
 
@@ -229,7 +236,14 @@ static PyObject *ObjectLinkedList_extend(PyObject *pySelf, PyObject *const *args
             return nullptr;
         }
 
-        self->list.push_back(item);
+        try {
+            self->list.push_back(item);
+        } catch (const std::exception &e) {
+            SAFE_DECREF(item);
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         self->modCount++;
     }
 
@@ -761,11 +775,18 @@ static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
     // fast extend
     if (iterable == pySelf || Py_TYPE(iterable) == &ObjectLinkedListType) {
         auto *iter = reinterpret_cast<ObjectLinkedList *>(iterable);
-        for (const auto &item: iter->list) {
-            Py_INCREF(item);
+        const size_t added = iter->list.size();
+        try {
+            self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
         }
-        self->list.insert(self->list.end(), iter->list.begin(), iter->list.end());
         self->modCount++;
+        auto end = self->list.end();  // iterable may be this list
+        for (size_t i = 0; i < added; ++i) {
+            Py_INCREF(*--end);
+        }
         Py_INCREF(pySelf);
         return pySelf;
     }
@@ -786,7 +807,14 @@ static PyObject *ObjectLinkedList_iadd(PyObject *pySelf, PyObject *iterable) {
             return nullptr;
         }
 
-        self->list.push_back(value);
+        try {
+            self->list.push_back(value);
+        } catch (const std::exception &e) {
+            SAFE_DECREF(item);
+            SAFE_DECREF(iter);
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return nullptr;
+        }
         self->modCount++;
     }
 
-- 
2.43.0


From 3f73b1d2baae00643a4604070366608972109f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 58/69] fix: deleting a slice of an object list aborted the
 process when memory ran out

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 6 ++++++
 pyfastutil/src/objects/ObjectLinkedList.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 0d77fd0..cbb8196 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -700,6 +700,12 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         }
 
         std::vector<PyObject *> removed;
+        try {
+            removed.reserve(static_cast<size_t>(sliceLength));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return -1;
+        }
         for (Py_ssize_t i = 0; i < sliceLength; i++) {
             removed.push_back(self->vector[static_cast<size_t>(start + i * step)]);
         }
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 50c20a8..9e8147e 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -655,6 +655,12 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         }
 
         std::vector<PyObject *> removed;
+        try {
+            removed.reserve(static_cast<size_t>(sliceLength));
+        } catch (const std::exception &e) {
+            PyErr_SetString(PyExc_RuntimeError, e.what());
+            return -1;
+        }
         auto iter = at(self->list, static_cast<size_t>(start));
         for (Py_ssize_t i = 0; i < sliceLength; i++) {
             removed.push_back(*iter);
-- 
2.43.0


From e942bc0a13ada34832a3b3430c25337b018ae01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 59/69] fix: pop of an integer list lost the element when
 memory ran out

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 10 ++++++----
 pyfastutil/src/ints/IntArrayList.cpp    | 12 +++++++-----
 pyfastutil/src/ints/IntLinkedList.cpp   | 10 ++++++----
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 01f3494..4e02ba6 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -357,16 +357,18 @@ static PyObject *BigIntArrayList_pop(PyObject *pySelf, PyObject *const *args, co
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
-        const auto popped = self->vector[static_cast<size_t>(index)];
+        PyObject *popped = PyLong_FromLongLong(self->vector[static_cast<size_t>(index)]);
+        if (popped == nullptr) return nullptr;
         self->vector.pop_back();
 
-        return PyLong_FromLongLong(popped);
+        return popped;
     }
 
-    const auto popped = self->vector[static_cast<size_t>(index)];
+    PyObject *popped = PyLong_FromLongLong(self->vector[static_cast<size_t>(index)]);
+    if (popped == nullptr) return nullptr;
     self->vector.erase(self->vector.begin() + index);
 
-    return PyLong_FromLongLong(popped);
+    return popped;
 }
 
 static PyObject *BigIntArrayList_index(PyObject *pySelf, PyObject *args) {
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 6170b87..5c40c10 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -339,13 +339,14 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
     const auto vecSize = static_cast<Py_ssize_t>(self->vector.size());
     Py_ssize_t index = vecSize - 1;
 
-    int popped;
+    PyObject *popped;
     switch (nargs) {
         case 0:
-            popped = self->vector.back();
+            popped = PyFast_FromInt(self->vector.back());
+            if (popped == nullptr) return nullptr;
             self->vector.pop_back();
 
-            return PyFast_FromInt(popped);
+            return popped;
         case 1:
             index = PyLong_AsSsize_t(args[0]);
             if (index == -1 && PyErr_Occurred()) {
@@ -361,10 +362,11 @@ static PyObject *IntArrayList_pop(PyObject *pySelf, PyObject *const *args, const
                 return nullptr;
             }
 
-            popped = self->vector[static_cast<size_t>(index)];
+            popped = PyFast_FromInt(self->vector[static_cast<size_t>(index)]);
+            if (popped == nullptr) return nullptr;
             self->vector.erase(self->vector.begin() + index);
 
-            return PyFast_FromInt(popped);
+            return popped;
         default:
             PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
             return nullptr;
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b0c59b8..0f12d7e 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -300,17 +300,19 @@ static PyObject *IntLinkedList_pop(PyObject *pySelf, PyObject *const *args, cons
         PyErr_SetString(PyExc_TypeError, "pop() takes at most 1 argument");
         return nullptr;
     } else {
-        const auto popped = self->list.back();
+        PyObject *popped = PyFast_FromInt(self->list.back());
+        if (popped == nullptr) return nullptr;
         self->list.pop_back();
         self->modCount++;
-        return PyFast_FromInt(popped);
+        return popped;
     }
 
     const auto iter = at(self->list, index);
-    const auto popped = *iter;
+    PyObject *popped = PyFast_FromInt(*iter);
+    if (popped == nullptr) return nullptr;
     self->list.erase(iter);
     self->modCount++;
-    return PyFast_FromInt(popped);
+    return popped;
 }
 
 static PyObject *IntLinkedList_index(PyObject *pySelf, PyObject *args) {
-- 
2.43.0


From 76c22ab8fd814221a1cd2e0251e3f503e03b71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 60/69] fix: sorting an integer list by a key crashed when
 memory ran out

---
 pyfastutil/src/ints/BigIntArrayList.cpp | 7 +++++++
 pyfastutil/src/ints/IntArrayList.cpp    | 7 +++++++
 pyfastutil/src/ints/IntLinkedList.cpp   | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4e02ba6..4904a47 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -513,6 +513,13 @@ static PyObject *BigIntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject
 
             for (size_t i = 0; i < vecSize; ++i) {
                 pyData[i] = PyLong_FromLongLong(self->vector[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
             // the key function may change this list, so make it temporarily empty like the built-in list
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 5c40c10..112be4d 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -516,6 +516,13 @@ static PyObject *IntArrayList_sort(PyObject *pySelf, PyObject *args, PyObject *k
 
             for (size_t i = 0; i < vecSize; ++i) {
                 pyData[i] = PyFast_FromInt(self->vector[i]);
+                if (pyData[i] == nullptr) {
+                    while (i > 0) {
+                        Py_DECREF(pyData[--i]);
+                    }
+                    PyMem_FREE(pyData);
+                    return nullptr;
+                }
             }
 
             // the key function may change this list, so make it temporarily empty like the built-in list
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index 0f12d7e..b98c3b7 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -461,6 +461,13 @@ static PyObject *IntLinkedList_sort(PyObject *pySelf, PyObject *args, PyObject *
         auto iter = self->list.begin();
         for (size_t i = 0; i < vecSize; ++i, ++iter) {
             pyData[i] = PyFast_FromInt(*iter);
+            if (pyData[i] == nullptr) {
+                while (i > 0) {
+                    Py_DECREF(pyData[--i]);
+                }
+                PyMem_FREE(pyData);
+                return nullptr;
+            }
         }
 
         // the key function may change this list, so make it temporarily empty like the built-in list
-- 
2.43.0


From 9e2f44ace911abe73bbd9b1e35d1273161e3beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 61/69] fix: *= of a linked list kept a part of the repetitions
 when memory ran out

---
 pyfastutil/src/ints/IntLinkedList.cpp       |  5 +++--
 pyfastutil/src/objects/ObjectLinkedList.cpp | 11 ++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index b98c3b7..bd92519 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -869,11 +869,12 @@ static PyObject *IntLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
             if (static_cast<size_t>(n) > self->list.max_size() / self->list.size()) {
                 throw std::length_error("result of repetition is too long");
             }
-            const std::list<int> origin = self->list;
+            std::list<int> added;
 
             for (Py_ssize_t i = 1; i < n; ++i) {
-                self->list.insert(self->list.end(), origin.begin(), origin.end());
+                added.insert(added.end(), self->list.begin(), self->list.end());
             }
+            self->list.splice(self->list.end(), added);
         }
         self->modCount++;
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 9e8147e..f4368a6 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -899,13 +899,14 @@ static PyObject *ObjectLinkedList_imul(PyObject *pySelf, Py_ssize_t n) {
             if (static_cast<size_t>(n) > self->list.max_size() / size) {
                 throw std::length_error("result of repetition is too long");
             }
+            std::list<PyObject *> added;
             for (Py_ssize_t i = 1; i < n; ++i) {
-                auto iter = self->list.begin();
-                for (size_t j = 0; j < size; ++j, ++iter) {
-                    self->list.push_back(*iter);
-                    Py_INCREF(*iter);
-                }
+                added.insert(added.end(), self->list.begin(), self->list.end());
+            }
+            for (const auto &item: added) {
+                Py_INCREF(item);
             }
+            self->list.splice(self->list.end(), added);
             self->modCount++;
         }
 
-- 
2.43.0


From 8d6d4d94ea8e646be3fb6c111fe600c803249871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 62/69] fix: slice assignment of an object list that ran out of
 memory leaked the items

---
 pyfastutil/src/objects/ObjectArrayList.cpp  |  6 +++---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index cbb8196..67da169 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -749,9 +749,6 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         const auto newLength = static_cast<Py_ssize_t>(items.size());
 
         sliceLength = PySlice_AdjustIndices(static_cast<Py_ssize_t>(self->vector.size()), &start, &stop, step);
-        for (const auto &item: items) {
-            Py_INCREF(item);
-        }
 
         std::vector<PyObject *> removed;
         removed.assign(self->vector.begin() + start, self->vector.begin() + start + sliceLength);
@@ -765,6 +762,9 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
             );
         }
         std::copy(items.begin(), items.begin() + common, self->vector.begin() + start);
+        for (const auto &item: items) {
+            Py_INCREF(item);
+        }
 
         // finalizers may use this list, so release the old items at last
         for (const auto &item: removed) {
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index f4368a6..24cc622 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -699,18 +699,17 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
                          newLength, sliceLength);
             return -1;
         }
-        for (const auto &item: items) {
-            Py_INCREF(item);
-        }
 
         std::vector<PyObject *> removed;
+        removed.reserve(static_cast<size_t>(sliceLength));
         if (step == 1) {
+            std::list<PyObject *> added(items.begin(), items.end());
             auto iter = at(self->list, static_cast<size_t>(start));
             for (Py_ssize_t i = 0; i < sliceLength; i++) {
                 removed.push_back(*iter);
                 iter = self->list.erase(iter);
             }
-            self->list.insert(iter, items.begin(), items.end());
+            self->list.splice(iter, added);
             self->modCount++;
         } else {
             for (Py_ssize_t i = 0; i < newLength; i++) {
@@ -719,6 +718,9 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
                 *iter = items[static_cast<size_t>(i)];
             }
         }
+        for (const auto &item: items) {
+            Py_INCREF(item);
+        }
 
         // finalizers may use this list, so release the old items at last
         for (const auto &item: removed) {
-- 
2.43.0


From f300d6c5b3b61c7ecb4bace1dc84fdc19629f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 63/69] fix: + of object lists dropped references it never took
 when memory ran out

---
 pyfastutil/src/objects/ObjectArrayList.cpp  | 1 +
 pyfastutil/src/objects/ObjectLinkedList.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 67da169..903ef2a 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -799,6 +799,7 @@ static PyObject *ObjectArrayList_add(PyObject *pySelf, PyObject *pyValue) {
             }
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
+            result->vector.clear();  // holds no references yet
             SAFE_DECREF(result);
             PyErr_SetString(PyExc_RuntimeError, e.what());
             return nullptr;
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 24cc622..2592be6 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -755,6 +755,7 @@ static PyObject *ObjectLinkedList_add(PyObject *pySelf, PyObject *pyValue) {
             }
             return reinterpret_cast<PyObject *>(result);
         } catch (const std::exception &e) {
+            result->list.clear();  // holds no references yet
             SAFE_DECREF(result);
             PyErr_SetString(PyExc_RuntimeError, e.what());
             return nullptr;
-- 
2.43.0


From 5aca39a1a746dcb700dae8670b5622fd6eba36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 64/69] fix: assigning to an extended slice of a linked list
 searched for each element from an end

---
 pyfastutil/src/objects/ObjectLinkedList.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 2592be6..25af00d 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -712,8 +712,11 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
             self->list.splice(iter, added);
             self->modCount++;
         } else {
+            auto iter = at(self->list, static_cast<size_t>(start));
             for (Py_ssize_t i = 0; i < newLength; i++) {
-                auto iter = at(self->list, static_cast<size_t>(start + i * step));
+                if (i > 0) {
+                    std::advance(iter, step);
+                }
                 removed.push_back(*iter);
                 *iter = items[static_cast<size_t>(i)];
             }
-- 
2.43.0


From 698f2e254b534c7491247250e8ba6f2eea25b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 65/69] fix: ASM.freeFunction kept its lock after an error, so
 the next call hung

---
 pyfastutil/src/unsafe/ASM.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index 98cfa86..243cc30 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -265,9 +265,13 @@ static PyObject *ASM_freeFunction([[maybe_unused]] PyObject *__restrict self,
     }
 
     void *target = PyLong_AsVoidPtr(args[0]);
+    if (target == nullptr && PyErr_Occurred()) {
+        return nullptr;
+    }
     std::pair<size_t, DWORD> metadata;
 
-    lock.lock();
+    // released on every path, also when an error is reported
+    const std::lock_guard<std::mutex> guard(lock);
 
     try {
         metadata = map.at(target);
@@ -289,7 +293,6 @@ static PyObject *ASM_freeFunction([[maybe_unused]] PyObject *__restrict self,
     alignedFree(target);
     map.erase(target);
 
-    lock.unlock();
     Py_RETURN_NONE;
 #else
     PyErr_SetString(PyExc_NotImplementedError, "ASM is not supported on this architecture.");
-- 
2.43.0


From 907d323354fade5ec1074d2a757271980737d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 66/69] fix: functions made by ASM shared pages with other
 memory, so freeing one made others unexecutable

---
 pyfastutil/src/unsafe/ASM.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyfastutil/src/unsafe/ASM.cpp b/pyfastutil/src/unsafe/ASM.cpp
index 243cc30..029a536 100644
--- a/pyfastutil/src/unsafe/ASM.cpp
+++ b/pyfastutil/src/unsafe/ASM.cpp
@@ -15,6 +15,13 @@
 static auto map = ankerl::unordered_dense::map<void *, std::pair<size_t, DWORD>>();
 static auto lock = std::mutex();
 
+// Memory protection applies to whole pages, so a function must not share its pages with anything else.
+static constexpr size_t PAGE_SIZE_BYTES = 4096;
+
+static inline size_t toWholePages(const size_t size) {
+    return (size + PAGE_SIZE_BYTES - 1) / PAGE_SIZE_BYTES * PAGE_SIZE_BYTES;
+}
+
 #endif
 
 extern "C" {
@@ -197,7 +204,7 @@ static PyObject *ASM_makeFunction([[maybe_unused]] PyObject *__restrict self,
 
     unsigned char *__restrict target;
     try {
-        target = (unsigned char *) alignedAlloc(size, 16);
+        target = (unsigned char *) alignedAlloc(toWholePages(size), PAGE_SIZE_BYTES);
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_MemoryError, e.what());
         return nullptr;
@@ -233,7 +240,7 @@ static PyObject *ASM_makeFunctionFast([[maybe_unused]] PyObject *__restrict self
 
     unsigned char *__restrict target;
     try {
-        target = (unsigned char *) alignedAlloc(size, 16);
+        target = (unsigned char *) alignedAlloc(toWholePages(size), PAGE_SIZE_BYTES);
     } catch (const std::exception &e) {
         PyErr_SetString(PyExc_MemoryError, e.what());
         return nullptr;
-- 
2.43.0


From 86c64da2d88d2b46f9f8af500df738de59c7b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:13 +0000
Subject: [PATCH 67/69] fix: PySequence_GetItem, SetItem and DelItem resolved
 negative indices twice

---
 pyfastutil/src/ints/BigIntArrayList.cpp     | 13 ++++++-------
 pyfastutil/src/ints/IntArrayList.cpp        | 13 ++++++-------
 pyfastutil/src/ints/IntLinkedList.cpp       | 13 ++++++-------
 pyfastutil/src/objects/ObjectArrayList.cpp  | 13 ++++++-------
 pyfastutil/src/objects/ObjectLinkedList.cpp | 13 ++++++-------
 5 files changed, 30 insertions(+), 35 deletions(-)

diff --git a/pyfastutil/src/ints/BigIntArrayList.cpp b/pyfastutil/src/ints/BigIntArrayList.cpp
index 4904a47..b7893d5 100644
--- a/pyfastutil/src/ints/BigIntArrayList.cpp
+++ b/pyfastutil/src/ints/BigIntArrayList.cpp
@@ -577,10 +577,6 @@ static PyObject *BigIntArrayList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
 
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
-
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return nullptr;
@@ -600,6 +596,9 @@ static PyObject *BigIntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
         if (pyIndex == -1 && PyErr_Occurred()) {
             return nullptr;
         }
+        if (pyIndex < 0) {
+            pyIndex += BigIntArrayList_len(pySelf);
+        }
         return BigIntArrayList_getitem(pySelf, pyIndex);
     }
 
@@ -639,9 +638,6 @@ static int BigIntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return -1;
@@ -677,6 +673,9 @@ static int BigIntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         if (index == -1 && PyErr_Occurred()) {
             return -1;
         }
+        if (index < 0) {
+            index += BigIntArrayList_len(pySelf);
+        }
         return BigIntArrayList_setitem(pySelf, index, value);
     }
 
diff --git a/pyfastutil/src/ints/IntArrayList.cpp b/pyfastutil/src/ints/IntArrayList.cpp
index 112be4d..f613504 100644
--- a/pyfastutil/src/ints/IntArrayList.cpp
+++ b/pyfastutil/src/ints/IntArrayList.cpp
@@ -580,10 +580,6 @@ static PyObject *IntArrayList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
 
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
-
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return nullptr;
@@ -598,6 +594,9 @@ static PyObject *IntArrayList_getitem_slice(PyObject *pySelf, PyObject *slice) {
         if (pyIndex == -1 && PyErr_Occurred()) {
             return nullptr;
         }
+        if (pyIndex < 0) {
+            pyIndex += IntArrayList_len(pySelf);
+        }
         return IntArrayList_getitem(pySelf, pyIndex);
     }
 
@@ -637,9 +636,6 @@ static int IntArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject *
 
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return -1;
@@ -675,6 +671,9 @@ static int IntArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObjec
         if (index == -1 && PyErr_Occurred()) {
             return -1;
         }
+        if (index < 0) {
+            index += IntArrayList_len(pySelf);
+        }
         return IntArrayList_setitem(pySelf, index, value);
     }
 
diff --git a/pyfastutil/src/ints/IntLinkedList.cpp b/pyfastutil/src/ints/IntLinkedList.cpp
index bd92519..af3a6e3 100644
--- a/pyfastutil/src/ints/IntLinkedList.cpp
+++ b/pyfastutil/src/ints/IntLinkedList.cpp
@@ -526,10 +526,6 @@ static PyObject *IntLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
 
     auto size = static_cast<Py_ssize_t>(self->list.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
-
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return nullptr;
@@ -549,6 +545,9 @@ static PyObject *IntLinkedList_getitem_slice(PyObject *pySelf, PyObject *slice)
         if (pyIndex == -1 && PyErr_Occurred()) {
             return nullptr;
         }
+        if (pyIndex < 0) {
+            pyIndex += IntLinkedList_len(pySelf);
+        }
         return IntLinkedList_getitem(pySelf, pyIndex);
     }
 
@@ -591,9 +590,6 @@ static int IntLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObject
 
     auto size = static_cast<Py_ssize_t>(self->list.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return -1;
@@ -632,6 +628,9 @@ static int IntLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyObje
         if (index == -1 && PyErr_Occurred()) {
             return -1;
         }
+        if (index < 0) {
+            index += IntLinkedList_len(pySelf);
+        }
         return IntLinkedList_setitem(pySelf, index, value);
     }
 
diff --git a/pyfastutil/src/objects/ObjectArrayList.cpp b/pyfastutil/src/objects/ObjectArrayList.cpp
index 903ef2a..d6e4b50 100644
--- a/pyfastutil/src/objects/ObjectArrayList.cpp
+++ b/pyfastutil/src/objects/ObjectArrayList.cpp
@@ -580,10 +580,6 @@ static PyObject *ObjectArrayList_getitem(PyObject *pySelf, Py_ssize_t pyIndex) {
 
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
-
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return nullptr;
@@ -600,6 +596,9 @@ static PyObject *ObjectArrayList_getitem_slice(PyObject *pySelf, PyObject *slice
         if (pyIndex == -1 && PyErr_Occurred()) {
             return nullptr;
         }
+        if (pyIndex < 0) {
+            pyIndex += ObjectArrayList_len(pySelf);
+        }
         return ObjectArrayList_getitem(pySelf, pyIndex);
     }
 
@@ -636,9 +635,6 @@ static int ObjectArrayList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObjec
 
     auto size = static_cast<Py_ssize_t>(self->vector.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return -1;
@@ -673,6 +669,9 @@ static int ObjectArrayList_setitem_slice(PyObject *pySelf, PyObject *slice, PyOb
         if (index == -1 && PyErr_Occurred()) {
             return -1;
         }
+        if (index < 0) {
+            index += ObjectArrayList_len(pySelf);
+        }
         return ObjectArrayList_setitem(pySelf, index, value);
     }
 
diff --git a/pyfastutil/src/objects/ObjectLinkedList.cpp b/pyfastutil/src/objects/ObjectLinkedList.cpp
index 25af00d..d65c276 100644
--- a/pyfastutil/src/objects/ObjectLinkedList.cpp
+++ b/pyfastutil/src/objects/ObjectLinkedList.cpp
@@ -519,10 +519,6 @@ static PyObject *ObjectLinkedList_getitem(PyObject *pySelf, Py_ssize_t pyIndex)
 
     auto size = static_cast<Py_ssize_t>(self->list.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
-
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return nullptr;
@@ -544,6 +540,9 @@ static PyObject *ObjectLinkedList_getitem_slice(PyObject *pySelf, PyObject *slic
         if (pyIndex == -1 && PyErr_Occurred()) {
             return nullptr;
         }
+        if (pyIndex < 0) {
+            pyIndex += ObjectLinkedList_len(pySelf);
+        }
         return ObjectLinkedList_getitem(pySelf, pyIndex);
     }
 
@@ -587,9 +586,6 @@ static int ObjectLinkedList_setitem(PyObject *pySelf, Py_ssize_t pyIndex, PyObje
 
     auto size = static_cast<Py_ssize_t>(self->list.size());
 
-    if (pyIndex < 0) {
-        pyIndex = size + pyIndex;
-    }
     if (pyIndex < 0 || pyIndex >= size) {
         PyErr_SetString(PyExc_IndexError, "index out of range.");
         return -1;
@@ -628,6 +624,9 @@ static int ObjectLinkedList_setitem_slice(PyObject *pySelf, PyObject *slice, PyO
         if (index == -1 && PyErr_Occurred()) {
             return -1;
         }
+        if (index < 0) {
+            index += ObjectLinkedList_len(pySelf);
+        }
         return ObjectLinkedList_setitem(pySelf, index, value);
     }
 
-- 
2.43.0


From a630aca5bf7f77b29f90889c737c82dc454f782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 68/69] fix: a process exiting while a daemon thread ran
 sort(key=) was aborted

---
 pyfastutil/src/utils/include/CPythonSort.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyfastutil/src/utils/include/CPythonSort.c b/pyfastutil/src/utils/include/CPythonSort.c
index 81758bb..ec78f5f 100644
--- a/pyfastutil/src/utils/include/CPythonSort.c
+++ b/pyfastutil/src/utils/include/CPythonSort.c
@@ -4,6 +4,12 @@
 // The CPython impl for List sort
 //
 
+// CPython ends a daemon thread by unwinding its stack, so an exception may pass through the callbacks.
+// Without this, link time optimization assumes that none does, and the process is terminated.
+#if defined(__GNUC__) && !defined(__clang__)
+#pragma GCC optimize("exceptions")
+#endif
+
 #include "CPythonSort.h"
 #include "stddef.h"
 #include "stdbool.h"
-- 
2.43.0


From ff07dcbbcf397fcc65ad057b76a8146bb254cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 69/69] fix: a process exiting while a daemon thread ran Python
 code in a container operation was aborted

---
 pyfastutil/src/utils/PythonUtils.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyfastutil/src/utils/PythonUtils.h b/pyfastutil/src/utils/PythonUtils.h
index 4660a10..c2ebb9a 100644
--- a/pyfastutil/src/utils/PythonUtils.h
+++ b/pyfastutil/src/utils/PythonUtils.h
@@ -17,7 +17,7 @@ static __forceinline constexpr void PyFast_INCREF(T *object) noexcept {
 }
 
 template<typename T>
-static __forceinline constexpr void PyFast_DECREF(T *object) noexcept {
+static __forceinline constexpr void PyFast_DECREF(T *object) {
     if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
         return;
     if (--((PyObject *) object)->ob_refcnt == 0)
@@ -25,7 +25,7 @@ static __forceinline constexpr void PyFast_DECREF(T *object) noexcept {
 }
 
 template<typename T>
-static __forceinline constexpr void PyFast_XDECREF(T *object) noexcept {
+static __forceinline constexpr void PyFast_XDECREF(T *object) {
     if (UNLIKELY(object == nullptr))
         return;
     if (UNLIKELY(((PyObject *) object)->ob_refcnt < 0))
@@ -35,19 +35,19 @@ static __forceinline constexpr void PyFast_XDECREF(T *object) noexcept {
 }
 
 template<typename T>
-static __forceinline constexpr void SAFE_DECREF(T *&object) noexcept {
+static __forceinline constexpr void SAFE_DECREF(T *&object) {
     assert(object != nullptr);
     PyFast_DECREF(object);
     object = nullptr;
 }
 
 template<typename T>
-static __forceinline T *Py_CreateObj(PyTypeObject &typeObj) noexcept {
+static __forceinline T *Py_CreateObj(PyTypeObject &typeObj) {
     return (T *) PyObject_CallObject((PyObject *) &typeObj, nullptr);
 }
 
 template<typename T>
-static __forceinline T *Py_CreateObj(PyTypeObject &typeObj, PyObject *args) noexcept {
+static __forceinline T *Py_CreateObj(PyTypeObject &typeObj, PyObject *args) {
     return (T *) PyObject_CallObject((PyObject *) &typeObj, args);
 }
 
@@ -62,7 +62,7 @@ static __forceinline T *Py_CreateObjNoInit(PyTypeObject &typeObj) noexcept {
  * @return if successful
  */
 static __forceinline bool PyParse_EvalRange(PyObject *&args,
-                                            Py_ssize_t &start, Py_ssize_t &stop, Py_ssize_t &step) noexcept {
+                                            Py_ssize_t &start, Py_ssize_t &stop, Py_ssize_t &step) {
     Py_ssize_t arg1 = PY_SSIZE_T_MAX;
     Py_ssize_t arg2 = PY_SSIZE_T_MAX;
     Py_ssize_t arg3 = PY_SSIZE_T_MAX;
@@ -106,7 +106,7 @@ static __forceinline bool PyParse_EvalRange(PyObject *&args,
 #define PyLong_TAGS(obj) ((obj)->lv_tag)
 #endif
 
-static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
+static __forceinline int PyFast_AsInt(PyObject *obj) {
 #ifdef IS_PYTHON_313_OR_LATER
     return PyLong_AsInt(obj);
 #else
@@ -125,11 +125,11 @@ static __forceinline int PyFast_AsInt(PyObject *obj) noexcept {
 #endif
 }
 
-static __forceinline short PyFast_AsShort(PyObject *obj) noexcept {
+static __forceinline short PyFast_AsShort(PyObject *obj) {
     return (short) PyLong_AsLong(obj);
 }
 
-static __forceinline char PyFast_AsChar(PyObject *obj) noexcept {
+static __forceinline char PyFast_AsChar(PyObject *obj) {
     return (char) PyLong_AsLong(obj);
 }
 
@@ -141,7 +141,7 @@ static __forceinline PyObject *PyFast_FromInt(const int value) noexcept {
  * Evaluate "value op obj" like python does.
  * @return 1 if true, 0 if false, -1 if an exception is raised
  */
-static inline int PyFast_CompareInt(const long long value, PyObject *obj, const int op) noexcept {
+static inline int PyFast_CompareInt(const long long value, PyObject *obj, const int op) {
     if (LIKELY(PyLong_CheckExact(obj))) {
         int overflow;
         const long long other = PyLong_AsLongLongAndOverflow(obj, &overflow);
@@ -239,7 +239,7 @@ static inline int PyFast_CompareInt(const long long value, PyObject *obj, const
     return result;
 }
 
-[[maybe_unused]] static __forceinline PyObject *PyFast_GetIter(PyObject *&obj) noexcept {
+[[maybe_unused]] static __forceinline PyObject *PyFast_GetIter(PyObject *&obj) {
     const auto type = obj->ob_type;
     if (LIKELY(type == &PyList_Type)) {
         return PyList_Type.tp_iter(obj);
@@ -261,7 +261,7 @@ static inline int PyFast_CompareInt(const long long value, PyObject *obj, const
 static const PyObject *EMPTY_TUPLE = PyTuple_New(0);
 #define EMPTY_TUPLE ((PyObject *) EMPTY_TUPLE)
 
-[[maybe_unused]] static __forceinline PyObject *PyFast_CallNoArgs(PyObject *callable) noexcept {
+[[maybe_unused]] static __forceinline PyObject *PyFast_CallNoArgs(PyObject *callable) {
     const PyTypeObject *type = callable->ob_type;
     const vectorcallfunc vecCallable = type->tp_vectorcall;
     if (LIKELY(vecCallable != nullptr)) {
@@ -278,7 +278,7 @@ static const PyObject *EMPTY_TUPLE = PyTuple_New(0);
 }
 
 [[maybe_unused]] static __forceinline PyObject *PyFast_CallNoKwargs(
-        PyObject *callable, const std::initializer_list<PyObject *> &args) noexcept {
+        PyObject *callable, const std::initializer_list<PyObject *> &args) {
     const PyTypeObject *type = callable->ob_type;
     const vectorcallfunc vecCallable = type->tp_vectorcall;
     const size_t argsCount = args.size();
@@ -299,7 +299,7 @@ static const PyObject *EMPTY_TUPLE = PyTuple_New(0);
 
 [[maybe_unused]] static __forceinline PyObject *PyFast_Call(
         PyObject *callable, const std::initializer_list<PyObject *> &args,
-        const size_t posArgCount, PyObject *kwNames, const std::initializer_list<Py_hash_t> &kwNamesHash) noexcept {
+        const size_t posArgCount, PyObject *kwNames, const std::initializer_list<Py_hash_t> &kwNamesHash) {
     const auto type = callable->ob_type;
     const vectorcallfunc vecCallable = type->tp_vectorcall;
     if (LIKELY(vecCallable != nullptr)) {
@@ -320,7 +320,7 @@ static const PyObject *EMPTY_TUPLE = PyTuple_New(0);
     return result;
 }
 
-[[maybe_unused]] static __forceinline PyObject *PyFast_Next(PyObject *iterable) noexcept {
+[[maybe_unused]] static __forceinline PyObject *PyFast_Next(PyObject *iterable) {
     return (*iterable->ob_type->tp_iternext)(iterable);
 }
 
-- 
2.43.0

