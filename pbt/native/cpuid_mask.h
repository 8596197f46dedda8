/* Force-included in the "cpu" build: every way C++ code asks for the features of the processor goes through wrappers that
 * clear the bits that are not set in PFU_ECX1 (CPUID leaf 1, ECX), PFU_EBX7 (leaf 7.0, EBX) and PFU_XCR0 (XGETBV 0), read from the
 * environment.  Bits are only ever cleared, so no code can run that the real processor cannot. */
#ifndef PFU_CPUID_MASK_H
#define PFU_CPUID_MASK_H
#if defined(__cplusplus) && defined(__x86_64__)
#include <cstdlib>
#include <cstring>
#include <cpuid.h>
#include <immintrin.h>

/* 1: leaf 1 was asked for, 2: leaf 7, 4: XGETBV */
inline unsigned pfu_seen __attribute__((visibility("default"))) = 0;

static inline unsigned long long pfu_mask(const char *name) {
    const char *s = std::getenv(name);
    return s == nullptr ? ~0ULL : std::strtoull(s, nullptr, 0);
}
static inline void pfu_clear(unsigned leaf, unsigned sub, unsigned *b, unsigned *c) {
    if (leaf == 1) { pfu_seen |= 1; *c &= (unsigned) pfu_mask("PFU_ECX1"); }
    if (leaf == 7 && sub == 0) { pfu_seen |= 2; *b &= (unsigned) pfu_mask("PFU_EBX7"); }
}
static inline int pfu_get_cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    int r = __get_cpuid_count(leaf, sub, a, b, c, d);
    if (r) pfu_clear(leaf, sub, b, c);
    return r;
}
static inline int pfu_get_cpuid(unsigned leaf, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
    int r = __get_cpuid(leaf, a, b, c, d);
    if (r) pfu_clear(leaf, 0, b, c);
    return r;
}
template<class A, class B, class C, class D>
static inline void pfu_cpuid(unsigned leaf, unsigned sub, A &a, B &b, C &c, D &d) {
    unsigned w = 0, x = 0, y = 0, z = 0;
    __cpuid_count(leaf, sub, w, x, y, z);
    pfu_clear(leaf, sub, &x, &y);
    a = (A) w; b = (B) x; c = (C) y; d = (D) z;
}
static inline unsigned long long pfu_xgetbv(unsigned i) {
    unsigned lo, hi;
    __asm__ __volatile__("xgetbv" : "=a"(lo), "=d"(hi) : "c"(i));
    unsigned long long r = ((unsigned long long) hi << 32) | lo;
    if (i == 0) { pfu_seen |= 4; r &= pfu_mask("PFU_XCR0"); }
    return r;
}
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) pfu_cpuid(l, 0, a, b, c, d)
#define __cpuid_count(l, s, a, b, c, d) pfu_cpuid(l, s, a, b, c, d)
#define __get_cpuid(l, a, b, c, d) pfu_get_cpuid(l, a, b, c, d)
#define __get_cpuid_count(l, s, a, b, c, d) pfu_get_cpuid_count(l, s, a, b, c, d)
#define __builtin_ia32_xgetbv(i) pfu_xgetbv(i)
#define _xgetbv(i) pfu_xgetbv(i)
#endif
#endif
