// Preloaded for C30: blocks of 512 MB and more repeat 12 MB of memory over and over, so that containers of more than 2^31 and 2^32
// elements cost next to nothing.  12 MB is 3 * 2^22: places that differ by a multiple of 2^31 or 2^32 bytes are different memory.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

static const size_t LIMIT = (size_t) 512 << 20, PERIOD = (size_t) 12 << 20, MOST = (size_t) 80 << 30;
struct Block { char *at; size_t size; };
static Block blocks[256];
static bool on = true;
static long made = 0;
static volatile int lock = 0;

static void take() { while (__sync_lock_test_and_set(&lock, 1)) {} }
static void give() { __sync_lock_release(&lock); }

static void *huge(size_t n, bool zero) {
    if (n > MOST) { errno = ENOMEM; return nullptr; }
    take();
    Block *b = nullptr;
    for (auto &x: blocks) if (x.at == nullptr) { b = &x; break; }
    if (b != nullptr) b->at = (char *) 1;
    give();
    if (b == nullptr) { errno = ENOMEM; return nullptr; }
    size_t size = (n + PERIOD - 1) / PERIOD * PERIOD;
    int fd = memfd_create("huge", MFD_CLOEXEC);
    char *p = fd < 0 || ftruncate(fd, PERIOD) ? (char *) MAP_FAILED
                                              : (char *) mmap(nullptr, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p != MAP_FAILED) {
        for (size_t i = 0; i < size; i += PERIOD) {
            if (mmap(p + i, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_POPULATE, fd, 0) == MAP_FAILED) {
                munmap(p, size);
                p = (char *) MAP_FAILED;
                break;
            }
        }
    }
    if (fd >= 0) close(fd);
    if (p == MAP_FAILED) {
        b->at = nullptr;
        errno = ENOMEM;
        return nullptr;
    }
    if (!zero) memset(p, 0xA5, PERIOD);
    b->size = n;
    b->at = p;
    made++;
    return p;
}

static Block *find(void *p) {
    if (((uintptr_t) p & 4095) != 0 || p == nullptr) return nullptr;
    for (auto &x: blocks) if (x.at == p) return &x;
    return nullptr;
}

static void release(Block *b) {
    munmap(b->at, (b->size + PERIOD - 1) / PERIOD * PERIOD);
    b->at = nullptr;
}

extern "C" {
EXPORT void *malloc(size_t n) { return n >= LIMIT && on ? huge(n, false) : __libc_malloc(n); }
EXPORT void *calloc(size_t k, size_t n) {
    size_t s;
    if (!__builtin_mul_overflow(k, n, &s) && s >= LIMIT && on) return huge(s, true);
    return __libc_calloc(k, n);
}
EXPORT void free(void *p) {
    Block *b = find(p);
    if (b != nullptr) release(b); else __libc_free(p);
}
EXPORT void *realloc(void *p, size_t n) {
    Block *b = find(p);
    if (b == nullptr && (n < LIMIT || !on)) return __libc_realloc(p, n);
    if (p == nullptr) return malloc(n);
    if (n == 0) { free(p); return nullptr; }
    if (b != nullptr && n >= LIMIT && n <= (b->size + PERIOD - 1) / PERIOD * PERIOD && n > b->size / 2) return p;
    void *q = malloc(n);
    if (q == nullptr) return nullptr;
    if (b != nullptr) {
        memcpy(q, p, n < PERIOD ? n : PERIOD);
        release(b);
    } else {
        // an ordinary block is below LIMIT, and its size is the word before it
        size_t size = (((size_t *) p)[-1] & ~(size_t) 7) - 16, k = 0;
        while (size - k > PERIOD) k += PERIOD;
        memcpy(q, p, PERIOD < size ? PERIOD : size);
        memcpy(q, (char *) p + k, size - k);
    }
    return q;
}
EXPORT void *memalign(size_t a, size_t n) { return n >= LIMIT && on ? huge(n, false) : __libc_memalign(a, n); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
EXPORT int posix_memalign(void **r, size_t a, size_t n) {
    void *p = memalign(a, n);
    if (p == nullptr) return ENOMEM;
    *r = p;
    return 0;
}
EXPORT long pfu_huge_made() { return made; }
EXPORT void pfu_huge(int yes) { on = yes != 0; }
}
