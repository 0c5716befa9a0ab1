/* LD_PRELOAD: exact count of live heap bytes in the interpreter under test */
#define _GNU_SOURCE
#include <stddef.h>
#include <malloc.h>
#include <errno.h>
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static long live;
#define ADD(p) __atomic_fetch_add(&live, (long)malloc_usable_size(p), __ATOMIC_RELAXED)
#define SUB(p) __atomic_fetch_sub(&live, (long)malloc_usable_size(p), __ATOMIC_RELAXED)
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) ADD(p); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) ADD(p); return p; }
void *realloc(void *q, size_t n) {
    long old = q ? (long)malloc_usable_size(q) : 0;
    void *p = __libc_realloc(q, n);
    if (p || n == 0) __atomic_fetch_sub(&live, old, __ATOMIC_RELAXED);
    if (p) ADD(p);
    return p;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) ADD(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
void free(void *p) { if (p) { SUB(p); __libc_free(p); } }
long vp_live(void) { return __atomic_load_n(&live, __ATOMIC_RELAXED); }
