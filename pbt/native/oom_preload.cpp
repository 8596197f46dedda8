// The half of oom.cpp that is preloaded: operator new, aligned_alloc, malloc ... that fail on demand and come before those of
// libstdc++ and libc.
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <link.h>
#include <new>

#define EXPORT __attribute__((visibility("default")))


static bool armed = false;
static long asked = 0, failed = 0, first_fail = 0, stop_fail = 0;
static int inside = 0;
static char *lo = nullptr, *hi = nullptr;     // addresses of the library under test

static bool fails() {
    if (!armed || inside) return false;
    long k = asked++;
    if (k >= first_fail && k < stop_fail) { failed++; return true; }
    return false;
}
static bool from_library(void *caller) { return (char *) caller >= lo && (char *) caller < hi; }

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

// ---- blocks of operator new, aligned_alloc ... that are not freed yet: a table by address
static const size_t CAP = 1 << 20;
static void **table = nullptr;
static long live = 0;
static void *const GONE = (void *) 1;
static size_t slot(void *p) { return ((size_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 44; }
static long marked = 0;      // slots that are in use or were
static void note(void *p) {
    if (p == nullptr || !armed) return;
    if (table == nullptr) {
        table = (void **) __libc_calloc(CAP, sizeof(void *));
    }
    if (marked > (long) (CAP / 2)) return;
    for (size_t i = slot(p);; i = (i + 1) & (CAP - 1)) {
        if (table[i] == nullptr || table[i] == GONE) {
            if (table[i] == nullptr) marked++;
            table[i] = p; live++; return;
        }
    }
}
static void unnote(void *p) {
    if (p == nullptr || live == 0) return;
    for (size_t i = slot(p);; i = (i + 1) & (CAP - 1)) {
        if (table[i] == p) { table[i] = GONE; live--; return; }
        if (table[i] == nullptr) return;
    }
}
static void forget() {
    if (table != nullptr && marked) memset(table, 0, CAP * sizeof(void *));
    live = 0; marked = 0;
}

static void *get(size_t n, size_t a, bool nothrow) {
    void *p = fails() ? nullptr : a ? __libc_memalign(a, n ? n : 1) : __libc_malloc(n ? n : 1);
    if (p == nullptr && !nothrow) throw std::bad_alloc();
    note(p);
    return p;
}
EXPORT void *operator new(size_t n) { return get(n, 0, false); }
EXPORT void *operator new[](size_t n) { return get(n, 0, false); }
EXPORT void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n, 0, true); }
EXPORT void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n, 0, true); }
EXPORT void *operator new(size_t n, std::align_val_t a) { return get(n, (size_t) a, false); }
EXPORT void *operator new[](size_t n, std::align_val_t a) { return get(n, (size_t) a, false); }
EXPORT void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return get(n, (size_t) a, true); }
EXPORT void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return get(n, (size_t) a, true); }
static void put(void *p) { unnote(p); __libc_free(p); }
EXPORT void operator delete(void *p) noexcept { put(p); }
EXPORT void operator delete[](void *p) noexcept { put(p); }
EXPORT void operator delete(void *p, size_t) noexcept { put(p); }
EXPORT void operator delete[](void *p, size_t) noexcept { put(p); }
EXPORT void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
EXPORT void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
EXPORT void operator delete(void *p, std::align_val_t) noexcept { put(p); }
EXPORT void operator delete[](void *p, std::align_val_t) noexcept { put(p); }
EXPORT void operator delete(void *p, size_t, std::align_val_t) noexcept { put(p); }
EXPORT void operator delete[](void *p, size_t, std::align_val_t) noexcept { put(p); }

extern "C" {
EXPORT void *aligned_alloc(size_t a, size_t n) {
    bool lib = from_library(__builtin_return_address(0));
    void *p = lib && fails() ? nullptr : __libc_memalign(a, n);
    if (lib) note(p);
    return p;
}
EXPORT int posix_memalign(void **out, size_t a, size_t n) {
    bool lib = from_library(__builtin_return_address(0));
    void *p = lib && fails() ? nullptr : __libc_memalign(a, n);
    if (lib) note(p);
    if (p == nullptr) return 12;
    *out = p;
    return 0;
}
EXPORT void *malloc(size_t n) {
    bool lib = from_library(__builtin_return_address(0));
    if (lib && fails()) return nullptr;
    void *p = __libc_malloc(n);
    if (lib) note(p);
    return p;
}
EXPORT void *calloc(size_t m, size_t n) {
    bool lib = from_library(__builtin_return_address(0));
    if (lib && fails()) return nullptr;
    void *p = __libc_calloc(m, n);
    if (lib) note(p);
    return p;
}
EXPORT void *realloc(void *q, size_t n) {
    bool lib = from_library(__builtin_return_address(0));
    if (lib && fails()) return nullptr;
    if (lib) unnote(q);
    void *p = __libc_realloc(q, n);
    if (lib) note(p);
    return p;
}
EXPORT void free(void *p) { unnote(p); __libc_free(p); }
}

static int find(struct dl_phdr_info *info, size_t, void *) {
    if (strstr(info->dlpi_name, "__pyfastutil") == nullptr) return 0;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        const auto &h = info->dlpi_phdr[i];
        if (h.p_type != PT_LOAD) continue;
        char *a = (char *) info->dlpi_addr + h.p_vaddr, *b = a + h.p_memsz;
        if (lo == nullptr || a < lo) lo = a;
        if (hi == nullptr || b > hi) hi = b;
    }
    return 1;
}

extern "C" {
// may the next allocation be made?
EXPORT bool pfu_oom_fails() { return fails(); }
EXPORT void pfu_oom_enter() { inside++; }
EXPORT void pfu_oom_leave() { inside--; }
EXPORT bool pfu_oom_find() { dl_iterate_phdr(find, nullptr); return lo != nullptr; }
EXPORT void pfu_oom_arm(long start, long stop) {
    forget();
    first_fail = start; stop_fail = stop; asked = failed = 0;
    armed = true;
}
EXPORT void pfu_oom_disarm(long *a, long *f) { armed = false; *a = asked; *f = failed; }
EXPORT long pfu_oom_live() { return live; }
}
