// Exact count of live heap memory (the allocator's own statistics count what its caches hold).
#include "heap.hpp"
#include <malloc.h>
#include <cerrno>
#include <cstddef>
long heap::fail_calloc = 0, heap::calloc_failed = 0;
void (*heap::hook)() = nullptr;
#ifndef __SANITIZE_ADDRESS__
static long long g_bytes = 0, g_blocks = 0;
static inline void add(void *p) { if (p) { __atomic_add_fetch(&g_bytes, (long long)malloc_usable_size(p), __ATOMIC_RELAXED); __atomic_add_fetch(&g_blocks, 1, __ATOMIC_RELAXED); } }
static inline void sub(void *p) { if (p) { __atomic_sub_fetch(&g_bytes, (long long)malloc_usable_size(p), __ATOMIC_RELAXED); __atomic_sub_fetch(&g_blocks, 1, __ATOMIC_RELAXED); } }
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { if (heap::hook) heap::hook(); void *p = __libc_malloc(n); add(p); return p; }
void free(void *p) { sub(p); __libc_free(p); if (heap::hook && p) heap::hook(); }
void *calloc(size_t a, size_t b) { if (heap::fail_calloc > 0 && --heap::fail_calloc == 0) { heap::calloc_failed++; return 0; } void *p = __libc_calloc(a, b); add(p); return p; }
void *realloc(void *q, size_t n) { long long was = q ? (long long)malloc_usable_size(q) : 0; void *p = __libc_realloc(q, n);
    if (p) { __atomic_add_fetch(&g_bytes, (long long)malloc_usable_size(p) - was, __ATOMIC_RELAXED); if (!q) __atomic_add_fetch(&g_blocks, 1, __ATOMIC_RELAXED); }
    else if (n == 0 && q) { __atomic_sub_fetch(&g_bytes, was, __ATOMIC_RELAXED); __atomic_sub_fetch(&g_blocks, 1, __ATOMIC_RELAXED); }
    return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); add(p); return p; }
void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); add(p); return p; }
int posix_memalign(void **r, size_t a, size_t n) { void *p = __libc_memalign(a, n); if (!p) return ENOMEM; add(p); *r = p; return 0; }
}
long long heap::bytes() { return g_bytes; }
long long heap::blocks() { return g_blocks; }
#else
long long heap::bytes() { return 0; }
long long heap::blocks() { return 0; }
#endif
