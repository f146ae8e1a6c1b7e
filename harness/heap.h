// The process's allocator under control: new and freed memory is filled with a chosen byte, and the live blocks are
// counted.  (Not in the sanitizer variant, which has its own allocator.)  Include in one translation unit.
#ifndef VERIF_HEAP_H
#define VERIF_HEAP_H
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <errno.h>
namespace heap {
inline std::atomic<int> fill{-1};        // byte written over new memory; -1: as the C library leaves it
inline std::atomic<long> blocks{0}, bytes{0};
#if defined(__SANITIZE_ADDRESS__)
constexpr bool controlled = false;
#else
constexpr bool controlled = true;
#endif
// leaves the given byte on the part of the stack that the next calls will use
__attribute__((noinline)) inline void dirty_stack(int b) { volatile char a[1 << 16]; for (size_t i = 0; i < sizeof a; ++i) a[i] = (char)b; asm volatile("" ::: "memory"); }
}
#if !defined(__SANITIZE_ADDRESS__)
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_realloc(void *, size_t); void *__libc_calloc(size_t, size_t); void *__libc_memalign(size_t, size_t);
static inline void *heap_new(void *p) { if (p) { ++heap::blocks; heap::bytes += malloc_usable_size(p); } return p; }
void *malloc(size_t n) { void *p = heap_new(__libc_malloc(n)); int b = heap::fill.load(std::memory_order_relaxed); if (p && b >= 0) memset(p, b, n); return p; }
void *calloc(size_t a, size_t b) { return heap_new(__libc_calloc(a, b)); }
void free(void *p) { if (!p) return; size_t u = malloc_usable_size(p); --heap::blocks; heap::bytes -= u; int b = heap::fill.load(std::memory_order_relaxed); if (b >= 0) memset(p, b, u); __libc_free(p); }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n); if (!n) { free(p); return nullptr; }
    size_t u = malloc_usable_size(p); void *q = __libc_realloc(p, n); if (!q) return q; heap::bytes -= u; heap::bytes += malloc_usable_size(q); int b = heap::fill.load(std::memory_order_relaxed); if (b >= 0 && n > u) memset((char *)q + u, b, n - u); return q;
}
void *memalign(size_t a, size_t n) { return heap_new(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return heap_new(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = heap_new(__libc_memalign(a, n)); if (!p) return ENOMEM; *r = p; return 0; }
}
#endif
#endif
