// Force-included in the AddressSanitizer build only: std::aligned_alloc(a, n)
// accepts every n with glibc, while ASan insists that n is a multiple of a.
#ifdef __cplusplus
#include <cstdlib>
#include <stdlib.h>
namespace std {
static inline void *pfu_aligned_alloc(size_t alignment, size_t n) {
    void *p = nullptr;
    if (alignment != 0 && (alignment & (alignment - 1)) == 0 && alignment < sizeof(void *)) alignment = sizeof(void *);
    return posix_memalign(&p, alignment, n) == 0 ? p : nullptr;
}
}
#define aligned_alloc pfu_aligned_alloc
#endif
