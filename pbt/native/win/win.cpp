// What windows.h declares, by mprotect: the protection belongs to whole pages, the old protection is that of the first page.
// Every other call can be made to fail, and blocks of aligned_alloc are counted.
#include "windows.h"
#include <map>
#include <set>
#include <cstdlib>
#include <sys/mman.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
static constexpr uintptr_t PAGE = 4096;
static std::map<uintptr_t, DWORD> *pages;        // those whose protection was changed
static std::map<uintptr_t, size_t> *areas;       // of VirtualAlloc
static std::set<void *> *blocks;                 // of aligned_alloc
static long failAt, calls;

static int native(DWORD p) {
    switch (p) {
        case PAGE_NOACCESS: return PROT_NONE;
        case PAGE_READONLY: return PROT_READ;
        case PAGE_READWRITE: return PROT_READ | PROT_WRITE;
        case PAGE_EXECUTE:
        case PAGE_EXECUTE_READ: return PROT_READ | PROT_EXEC;
        case PAGE_EXECUTE_READWRITE: return PROT_READ | PROT_WRITE | PROT_EXEC;
        default: return -1;
    }
}

static bool fails() {
    calls++;
    return failAt > 0 && --failAt == 0;
}

extern "C" {
BOOL VirtualProtect(LPVOID address, SIZE_T size, DWORD protection, PDWORD old) {
    if (pages == nullptr) pages = new std::map<uintptr_t, DWORD>();
    if (fails() || size == 0 || old == nullptr || native(protection) < 0) return FALSE;
    const uintptr_t first = (uintptr_t) address / PAGE * PAGE;
    const uintptr_t end = ((uintptr_t) address + size + PAGE - 1) / PAGE * PAGE;
    if (mprotect((void *) first, end - first, native(protection)) != 0) return FALSE;
    const auto it = pages->find(first);
    const DWORD before = it == pages->end() ? PAGE_READWRITE : it->second;
    for (uintptr_t p = first; p < end; p += PAGE) (*pages)[p] = protection;
    *old = before;
    return TRUE;
}

LPVOID VirtualAlloc(LPVOID address, SIZE_T size, DWORD, DWORD protection) {
    if (areas == nullptr) areas = new std::map<uintptr_t, size_t>();
    if (pages == nullptr) pages = new std::map<uintptr_t, DWORD>();
    if (fails() || size == 0 || address != nullptr || native(protection) < 0) return nullptr;
    size = (size + PAGE - 1) / PAGE * PAGE;
    void *p = mmap(nullptr, size, native(protection), MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return nullptr;
    (*areas)[(uintptr_t) p] = size;
    for (uintptr_t q = (uintptr_t) p; q < (uintptr_t) p + size; q += PAGE) (*pages)[q] = protection;
    return p;
}

BOOL VirtualFree(LPVOID address, SIZE_T, DWORD type) {
    if (areas == nullptr) return FALSE;
    const auto it = areas->find((uintptr_t) address);
    if (it == areas->end() || type != MEM_RELEASE) return FALSE;
    munmap(address, it->second);
    for (uintptr_t q = it->first; q < it->first + it->second; q += PAGE) pages->erase(q);
    areas->erase(it);
    return TRUE;
}

BOOL FlushInstructionCache(HANDLE, LPCVOID, SIZE_T) { return TRUE; }
HANDLE GetCurrentProcess() { return (HANDLE) -1; }
DWORD GetLastError() { return 5; }
void GetSystemInfo(SYSTEM_INFO *info) {
    *info = {};
    info->dwPageSize = PAGE;
    info->dwAllocationGranularity = 65536;
}

void *__real_aligned_alloc(size_t alignment, size_t size);
void __real_free(void *p);

void *__wrap_aligned_alloc(size_t alignment, size_t size) {
    if (blocks == nullptr) blocks = new std::set<void *>();
    void *p = __real_aligned_alloc(alignment, size);
    if (p != nullptr) blocks->insert(p);
    return p;
}

void __wrap_free(void *p) {
    if (blocks != nullptr) blocks->erase(p);
    __real_free(p);
}
}

// the n-th call from now on fails (0: none)
EXPORT void pfu_fail(long n) { failAt = n; calls = 0; }
EXPORT long pfu_calls() { return calls; }
EXPORT long pfu_blocks() { return (blocks ? (long) blocks->size() : 0) + (areas ? (long) areas->size() : 0); }
EXPORT long pfu_unusual() {
    long n = 0;
    if (pages != nullptr) {
        for (const auto &p: *pages) n += p.second != PAGE_READWRITE;
    }
    return n;
}
