/* LD_PRELOAD: watches the big-number layer of a process. Every block the memory functions in force (GMP's own, or the ones the
 * program under test installs) hand back to the C allocator is inspected at that moment; counts go to the shared file $WIPE_STAT. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <gmp.h>
#undef mp_set_memory_functions
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
static long none[8], *st = none;        /* blocks, dirty blocks, usable size and offset of the first dirty one, installs, processes, bytes */
static __thread int inside __attribute__((tls_model("initial-exec")));
static void *(*ua)(size_t);
static void *(*ur)(void *, size_t, size_t);
static void (*uf)(void *, size_t);

void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (p && inside) memset(p, 0, malloc_usable_size(p));
    return p;
}

static void look(void *q) {
    size_t n = malloc_usable_size(q), i;
    unsigned char *b = q;
    __atomic_fetch_add(&st[0], 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&st[6], (long)n, __ATOMIC_RELAXED);
    for (i = 0; i < n && !b[i]; i++) ;
    if (i < n && __atomic_fetch_add(&st[1], 1, __ATOMIC_RELAXED) == 0) {
        st[2] = (long)n;
        st[3] = (long)i;
    }
}

void free(void *q) {
    if (q && inside) look(q);
    __libc_free(q);
}

void *realloc(void *q, size_t n) {
    void *p;
    size_t old;
    if (!inside) return __libc_realloc(q, n);
    if (!q) return malloc(n);
    old = malloc_usable_size(q);
    if (n <= old && n) {                /* stays where it is; what it gives up goes back to the allocator */
        return q;
    }
    p = malloc(n);
    if (!p) return p;
    memcpy(p, q, old < n ? old : n);
    look(q);
    __libc_free(q);
    return p;
}

static void *wa(size_t n) {
    void *p;
    int o = inside;
    inside = 1;
    p = ua ? ua(n) : malloc(n);
    inside = o;
    return p;
}

static void *wr(void *q, size_t a, size_t b) {
    void *p;
    int o = inside;
    inside = 1;
    p = ur ? ur(q, a, b) : realloc(q, b);
    inside = o;
    return p;
}

static void wf(void *q, size_t n) {
    int o = inside;
    inside = 1;
    if (uf) uf(q, n); else free(q);
    inside = o;
}

void __gmp_set_memory_functions(void *(*a)(size_t), void *(*r)(void *, size_t, size_t), void (*f)(void *, size_t)) {
    ua = a;
    ur = r;
    uf = f;
    __atomic_fetch_add(&st[4], 1, __ATOMIC_RELAXED);
}

void __gmp_get_memory_functions(void *(**a)(size_t), void *(**r)(void *, size_t, size_t), void (**f)(void *, size_t)) {
    if (a) *a = ua ? ua : wa;
    if (r) *r = ur ? ur : wr;
    if (f) *f = uf ? uf : wf;
}

__attribute__((constructor)) static void start(void) {
    void (*set)(void *(*)(size_t), void *(*)(void *, size_t, size_t), void (*)(void *, size_t)) = dlsym(RTLD_NEXT, "__gmp_set_memory_functions");
    const char *name = getenv("WIPE_STAT");
    int fd = name ? open(name, O_RDWR) : -1;
    void *m = fd >= 0 ? mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0) : MAP_FAILED;
    if (m != MAP_FAILED) st = m;
    if (fd >= 0) close(fd);
    if (set) {
        set(wa, wr, wf);
        __atomic_fetch_add(&st[5], 1, __ATOMIC_RELAXED);
    }
}
