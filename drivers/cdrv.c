/* Line-protocol driver over the public C API of ecclib.
 *
 * One command per line, one reply per line; "." ends a batch (replies are
 * flushed).  Objects live in numbered slots.  Integers are signed hex, byte
 * strings hex ("." = empty, "-" = NULL).  "BAD ..." means the command was not
 * applicable to the slots' state: the harness treats the case as invalid.
 */
#define _GNU_SOURCE
#include <ecc.h>
#include <gmp.h>
#include <sodium.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef THREADS
#include <pthread.h>
#define TLS __thread
#else
#define TLS
#endif
#define NS 64
#define MAXTOK 64

/* ------------------------------------------------------------ allocation */
static int scope_gmp = 0;       /* inside GMP's free/realloc function        */
static long dirty_frees = 0;    /* blocks freed in that scope, not all zero  */
static size_t dirty_size = 0, dirty_off = 0;
static long scoped_frees = 0, scoped_nonempty = 0;
static long live_blocks = 0;
static long live_bytes = 0;
#ifdef TRACK_ALLOC
static int fill = 0xA5;   /* junk, so that reads of uninitialised memory matter; 0 while frees are audited */
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (p) {
        size_t u = malloc_usable_size(p);
        memset(p, fill, u);
        __atomic_add_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&live_bytes, u, __ATOMIC_RELAXED);
    }
    return p;
}
void free(void *p) {
    if (p == NULL) return;
    size_t u = malloc_usable_size(p);
    if (scope_gmp) {
        const volatile unsigned char *b = p;
        size_t i;
        scoped_frees++;
        for (i = 0; i < u; i++) {
            if (b[i]) {
                if (dirty_frees == 0) { dirty_size = u; dirty_off = i; }
                dirty_frees++;
                break;
            }
        }
    }
    __atomic_sub_fetch(&live_blocks, 1, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&live_bytes, u, __ATOMIC_RELAXED);
    __libc_free(p);
}
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    void *p = malloc(n); if (p) memset(p, 0, n); return p;
}
void *realloc(void *p, size_t n) {
    if (p == NULL) return malloc(n);
    if (n == 0) { free(p); return NULL; }
    size_t u = malloc_usable_size(p);
    void *q = malloc(n);
    if (!q) return NULL;
    memcpy(q, p, u < n ? u : n);
    free(p);
    return q;
}
#endif

static void *(*lib_realloc)(void *, size_t, size_t);
static void (*lib_free)(void *, size_t);
static void *(*lib_alloc)(size_t);
static void *my_alloc(size_t n) { return lib_alloc(n); }
static void *my_realloc(void *p, size_t o, size_t n) {
    scope_gmp++; void *r = lib_realloc(p, o, n); scope_gmp--; return r;
}
static void my_free(void *p, size_t n) { scope_gmp++; lib_free(p, n); scope_gmp--; }

/* ------------------------------------------------------------ slots */
static TLS mpFp_t F[NS]; static TLS int fi[NS];  /* 1 init, 2 has a value */
static TLS mpECurve_t C[NS]; static TLS int ci[NS];       /* 1 init, 2 has a curve */
static TLS mpECP_t P[NS]; static TLS int pi_[NS], pc[NS]; /* 1 init, 2 has a value */
static TLS mpECDSASignatureScheme_t H[NS]; static TLS int hi[NS], hc[NS];
static TLS mpECDSASignature_t S[NS]; static TLS int si[NS], sh[NS];
static TLS mpECElgamalCiphertext_t E[NS]; static TLS int ei[NS];

static TLS char *tok[MAXTOK]; static TLS int nt;
static TLS char *outbuf; static TLS size_t outlen, outcap;
static void out(const char *f, ...) {
    va_list a;
    for (;;) {
        va_start(a, f);
        int n = vsnprintf(outbuf + outlen, outcap - outlen, f, a);
        va_end(a);
        if ((size_t)n < outcap - outlen) { outlen += n; return; }
        outcap = outcap * 2 + n;
        outbuf = realloc(outbuf, outcap);
    }
}
static void outz(mpz_t z) { char *s = mpz_get_str(NULL, 16, z);
    void (*ff)(void *, size_t); mp_get_memory_functions(NULL, NULL, &ff);
    out("%s", s); ff(s, strlen(s) + 1); }
static void outhex(const unsigned char *b, size_t n) {
    size_t i; if (n == 0) { out("."); return; }
    for (i = 0; i < n; i++) out("%02x", b[i]);
}
static int bad(const char *w) { out("BAD %s", w); return 0; }
#define NEED(c) do { if (!(c)) { bad(#c); return; } } while (0)

static int slot(int i) { if (i >= nt) return -1; int v = atoi(tok[i]); return (v >= 0 && v < NS) ? v : -1; }
static unsigned char *bytes_tok(int i, size_t *n) {   /* exact-size buffer */
    const char *s = tok[i];
    if (!strcmp(s, "-")) { *n = 0; return NULL; }
    if (!strcmp(s, ".")) { *n = 0; return malloc(1); }
    size_t L = strlen(s) / 2, k;
    unsigned char *b = malloc(L ? L : 1);
    for (k = 0; k < L; k++) { unsigned v; sscanf(s + 2 * k, "%2x", &v); b[k] = v; }
    *n = L;
    return b;
}
static char *str_tok(int i) {
    size_t n; unsigned char *b = bytes_tok(i, &n);
    if (!b) return NULL;
    char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return s;
}
static void ztok(mpz_t z, int i) { if (mpz_set_str(z, tok[i], 16) != 0) mpz_set_ui(z, 0); }

/* ------------------------------------------------------------ hashes */
static TLS size_t copyhash_sz;
static void copyhash(unsigned char *h, unsigned char *m, size_t sz) {
    memset(h, 0, copyhash_sz);
    if (sz) memcpy(h, m, sz < copyhash_sz ? sz : copyhash_sz);
}
#define HS(N) static void h_##N(unsigned char *h, unsigned char *m, size_t sz) { copyhash_sz = N; copyhash(h, m, sz); }
#define ALLHS X(1)X(2)X(3)X(4)X(5)X(6)X(7)X(8)X(9)X(12)X(13)X(14)X(15)X(16)X(17)X(18)X(19)X(20)X(21)X(22)X(24)X(25)X(27)X(28)X(29)X(30)X(31)X(32)X(33)X(40)X(47)X(48)X(49)X(52)X(56)X(57)X(63)X(64)X(65)X(66)X(67)X(72)X(96)X(128)X(132)X(200)
#define X(N) HS(N)
ALLHS
#undef X
static void h_sha256(unsigned char *h, unsigned char *m, size_t sz) { crypto_hash_sha256(h, m, sz); }
static void h_sha512(unsigned char *h, unsigned char *m, size_t sz) { crypto_hash_sha512(h, m, sz); }
static int pick_hash(const char *s, mpECDSAHashfunc_t HF) {
    mpECDSAHashfunc_t q;
    mpECDSAHashfunc_init(HF);
    if (!strcmp(s, "sha256")) { q->dohash = h_sha256; q->hsz = 32; mpECDSAHashfunc_set(HF, q); return 1; }
    if (!strcmp(s, "sha512")) { q->dohash = h_sha512; q->hsz = 64; mpECDSAHashfunc_set(HF, q); return 1; }
    switch (atoi(s)) {
#define X(N) case N: q->dohash = h_##N; break;
    ALLHS
#undef X
    default: return 0;
    }
    q->hsz = atoi(s);
    mpECDSAHashfunc_set(HF, q);
    return 1;
}

/* ------------------------------------------------------------ field */
static void ff(int i) { if (!fi[i]) return; mpz_t z; mpz_init(z); mpz_set_mpFp(z, F[i]); out(" "); outz(z); out(" "); outz(F[i]->fp->p); mpz_clear(z); }

static void c_finit(void) { int i = slot(1); NEED(i >= 0 && !fi[i]); mpz_t p; mpz_init(p); ztok(p, 2); mpFp_init(F[i], p); fi[i] = 1; mpz_clear(p); out("ok"); }
static void c_fclr(void) { int i = slot(1); NEED(i >= 0 && fi[i]); mpFp_clear(F[i]); fi[i] = 0; out("ok"); }
static int canonical(int i) { return fi[i] == 2; }   /* has been given a value */
static int samefield(int a, int b) { return mpz_cmp(F[a]->fp->p, F[b]->fp->p) == 0; }
static void c_fsetz(void) { int i = slot(1); NEED(i >= 0 && fi[i]); mpz_t z, p; mpz_init(z); mpz_init(p); ztok(z, 2); ztok(p, 3); mpFp_set_mpz(F[i], z, p); mpz_clear(z); mpz_clear(p); fi[i] = 2; out("ok"); }
static void c_fsetzfp(void) { int i = slot(1), j = slot(3); NEED(i >= 0 && fi[i] && j >= 0 && fi[j]); mpz_t z; mpz_init(z); ztok(z, 2); mpFp_set_mpz_fp(F[i], z, F[j]->fp); mpz_clear(z); fi[i] = 2; out("ok"); }
static void c_fsetui(void) { int i = slot(1); NEED(i >= 0 && fi[i]); mpz_t p; mpz_init(p); unsigned long u = strtoul(tok[2], 0, 16); ztok(p, 3); mpFp_set_ui(F[i], u, p); mpz_clear(p); fi[i] = 2; out("ok"); }
static void c_fsetuifp(void) { int i = slot(1), j = slot(3); NEED(i >= 0 && fi[i] && j >= 0 && fi[j]); mpFp_set_ui_fp(F[i], strtoul(tok[2], 0, 16), F[j]->fp); fi[i] = 2; out("ok"); }
static void c_fset(void) { int i = slot(1), j = slot(2); NEED(i >= 0 && fi[i] && j >= 0 && fi[j] && canonical(j)); mpFp_set(F[i], F[j]); fi[i] = 2; out("ok"); }
static void c_fget(void) { int i = slot(1); NEED(i >= 0 && fi[i] && canonical(i)); out("ok"); ff(i); }
static void c_fget_z(void) { /* through an mpz that previously held something else */
    int i = slot(1); NEED(i >= 0 && fi[i] && canonical(i)); mpz_t z; mpz_init(z); ztok(z, 2); mpz_set_mpFp(z, F[i]); out("ok "); outz(z); mpz_clear(z); }
static void c_f3(void) { /* f3 op d a b */
    int d = slot(2), a = slot(3), b = slot(4); NEED(d >= 0 && a >= 0 && b >= 0 && fi[d] && fi[a] && fi[b]); NEED(canonical(a) && canonical(b)); NEED(samefield(a, b));
    if (!strcmp(tok[1], "add")) mpFp_add(F[d], F[a], F[b]);
    else if (!strcmp(tok[1], "sub")) mpFp_sub(F[d], F[a], F[b]);
    else if (!strcmp(tok[1], "mul")) mpFp_mul(F[d], F[a], F[b]);
    else { bad("op"); return; }
    fi[d] = 2; out("ok"); }
static void c_f2(void) { int d = slot(2), a = slot(3), r = 0; NEED(d >= 0 && a >= 0 && fi[d] && fi[a] && canonical(a));
    if (!strcmp(tok[1], "sqr")) mpFp_sqr(F[d], F[a]);
    else if (!strcmp(tok[1], "neg")) mpFp_neg(F[d], F[a]);
    else if (!strcmp(tok[1], "inv")) r = mpFp_inv(F[d], F[a]);
    else if (!strcmp(tok[1], "sqrt")) r = mpFp_sqrt(F[d], F[a]);
    else { bad("op"); return; }
    if (r == 0) fi[d] = 2; else if (d != a) fi[d] = 1;   /* undefined after a failure */
    out("ok %d", r != 0); }
static void c_fui(void) { int d = slot(2), a = slot(3); NEED(d >= 0 && a >= 0 && fi[d] && fi[a] && canonical(a)); unsigned long u = strtoul(tok[4], 0, 16);
    if (!strcmp(tok[1], "add")) mpFp_add_ui(F[d], F[a], u);
    else if (!strcmp(tok[1], "sub")) mpFp_sub_ui(F[d], F[a], u);
    else if (!strcmp(tok[1], "mul")) mpFp_mul_ui(F[d], F[a], u);
    else if (!strcmp(tok[1], "pow")) mpFp_pow_ui(F[d], F[a], u);
    else { bad("op"); return; }
    fi[d] = 2; out("ok"); }
static void c_fpowz(void) { int d = slot(1), a = slot(2); NEED(d >= 0 && a >= 0 && fi[d] && fi[a] && canonical(a)); mpz_t z; mpz_init(z); ztok(z, 3); mpFp_pow_mpz(F[d], F[a], z); mpz_clear(z); fi[d] = 2; out("ok"); }
static void c_fswap(void) { int d = slot(1), a = slot(2); NEED(d >= 0 && a >= 0 && fi[d] && fi[a] && canonical(a) && canonical(d) && samefield(a, d)); mpFp_swap(F[d], F[a]); out("ok"); }
static void c_fcswap(void) { int d = slot(1), a = slot(2); NEED(d >= 0 && a >= 0 && fi[d] && fi[a] && canonical(a) && canonical(d) && samefield(a, d)); mpFp_cswap(F[d], F[a], (int)strtol(tok[3], 0, 0)); out("ok"); }
static int sgn(int v) { return (v > 0) - (v < 0); }
static void c_fcmp(void) { int a = slot(1), b = slot(2); NEED(a >= 0 && b >= 0 && fi[a] && fi[b] && canonical(a) && canonical(b) && samefield(a, b)); out("ok %d", sgn(mpFp_cmp(F[a], F[b]))); }
static void c_fcmpui(void) { int a = slot(1); NEED(a >= 0 && fi[a] && canonical(a)); out("ok %d", mpFp_cmp_ui(F[a], strtoul(tok[2], 0, 16)) != 0); }
static void c_fcmpz(void) { int a = slot(1); NEED(a >= 0 && fi[a] && canonical(a)); mpz_t z; mpz_init(z); ztok(z, 2); out("ok %d", mpFp_cmp_mpz(F[a], z) != 0); mpz_clear(z); }
static void c_ftst(void) { int a = slot(1); NEED(a >= 0 && fi[a] && canonical(a)); out("ok %d", mpFp_tstbit(F[a], atoi(tok[2]))); }
static void c_frand(void) { int a = slot(1); NEED(a >= 0 && fi[a]); mpz_t p; mpz_init(p); ztok(p, 2); mpFp_urandom(F[a], p); mpz_clear(p); fi[a] = 2; out("ok"); ff(a); }

/* ------------------------------------------------------------ curve */
static const char *kindname(int t) { return t == EQTypeShortWeierstrass ? "ws" : t == EQTypeEdwards ? "ed" : t == EQTypeMontgomery ? "mo" : t == EQTypeTwistedEdwards ? "te" : "none"; }
static void curve_slot(int i) { if (!ci[i]) { mpECurve_init(C[i]); ci[i] = 1; } }
static void c_cinit(void) { int i = slot(1); NEED(i >= 0 && !ci[i]); mpECurve_init(C[i]); ci[i] = 1; out("ok"); }
static int inuse(int i) { int k; mpECurve_ptr c = C[i];
    for (k = 0; k < NS; k++) if ((pi_[k] && (pc[k] == i || P[k]->cvp == c)) || (hi[k] && hc[k] == i) || (ei[k] && (E[k]->C->cvp == c || E[k]->D->cvp == c))) return 1;
    return 0; }
/* cz slot kind p a b n h gx gy bits */
static void c_cz(void) { int i = slot(1), k, r; NEED(i >= 0 && nt == 11); NEED(!inuse(i)); mpz_t z[7]; char *kd = tok[2]; curve_slot(i);
    for (k = 0; k < 7; k++) { mpz_init(z[k]); ztok(z[k], 3 + k); }
    unsigned bits = (unsigned)strtoul(tok[10], 0, 10);
    if (!strcmp(kd, "ws")) r = mpECurve_set_mpz_ws(C[i], z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits);
    else if (!strcmp(kd, "ed")) r = mpECurve_set_mpz_ed(C[i], z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits);
    else if (!strcmp(kd, "mo")) r = mpECurve_set_mpz_mo(C[i], z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits);
    else r = mpECurve_set_mpz_te(C[i], z[0], z[1], z[2], z[3], z[4], z[5], z[6], bits);
    for (k = 0; k < 7; k++) mpz_clear(z[k]);
    ci[i] = r == 0 ? 2 : (ci[i] == 2 ? 3 : 3);
    out("ok %d", r != 0); }
static void c_cs(void) { int i = slot(1), k, r; NEED(i >= 0 && nt == 11); NEED(!inuse(i)); char *s[7]; char *kd = tok[2]; curve_slot(i);
    for (k = 0; k < 7; k++) s[k] = str_tok(3 + k);
    unsigned bits = (unsigned)strtoul(tok[10], 0, 10);
    if (!strcmp(kd, "ws")) r = mpECurve_set_str_ws(C[i], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits);
    else if (!strcmp(kd, "ed")) r = mpECurve_set_str_ed(C[i], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits);
    else if (!strcmp(kd, "mo")) r = mpECurve_set_str_mo(C[i], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits);
    else r = mpECurve_set_str_te(C[i], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits);
    for (k = 0; k < 7; k++) free(s[k]);
    ci[i] = r == 0 ? 2 : 3;
    out("ok %d", r != 0); }
static void c_cn(void) { int i = slot(1), r; NEED(i >= 0); NEED(!inuse(i)); char *s = str_tok(2); curve_slot(i); r = mpECurve_set_named(C[i], s); free(s); if (r == 0) ci[i] = 2; out("ok %d", r != 0); }
static void c_cset(void) { int i = slot(1), j = slot(2); NEED(i >= 0 && j >= 0 && ci[j] == 2); NEED(!inuse(i)); curve_slot(i); mpECurve_set(C[i], C[j]); ci[i] = 2; out("ok"); }
static void c_cclr(void) { int i = slot(1); NEED(i >= 0 && ci[i]); NEED(!inuse(i)); mpECurve_clear(C[i]); ci[i] = 0; out("ok"); }
static void c_ccmp(void) { int i = slot(1), j = slot(2); NEED(i >= 0 && j >= 0 && ci[i] == 2 && ci[j] == 2); out("ok %d", mpECurve_cmp(C[i], C[j]) != 0); }
static void c_cchk(void) { int i = slot(1); NEED(i >= 0 && ci[i] == 2); mpz_t x, y; mpz_init(x); mpz_init(y); ztok(x, 2); ztok(y, 3); out("ok %d", mpECurve_point_check(C[i], x, y) != 0); mpz_clear(x); mpz_clear(y); }
static void outf(mpFp_t f) { mpz_t z; mpz_init(z); mpz_set_mpFp(z, f); out(" "); outz(z); mpz_clear(z); }
static void c_cdump(void) { int i = slot(1); NEED(i >= 0 && ci[i] == 2); out("ok %s ", kindname(C[i]->type)); outz(C[i]->fp->p);
    switch (C[i]->type) {
    case EQTypeShortWeierstrass: outf(C[i]->coeff.ws.a); outf(C[i]->coeff.ws.b); break;
    case EQTypeEdwards: outf(C[i]->coeff.ed.c); outf(C[i]->coeff.ed.d); break;
    case EQTypeMontgomery: outf(C[i]->coeff.mo.B); outf(C[i]->coeff.mo.A); break;
    case EQTypeTwistedEdwards: outf(C[i]->coeff.te.a); outf(C[i]->coeff.te.d); break;
    default: break; }
    out(" "); outz(C[i]->n); out(" "); outz(C[i]->h); out(" "); outz(C[i]->G[0]); out(" "); outz(C[i]->G[1]); out(" %u", C[i]->bits); }
static void c_clist(void) { char **l = _mpECurve_list_standard_curves(); int k; out("ok"); for (k = 0; l[k]; k++) { out(" %s", l[k]); free(l[k]); } free(l); }

/* ------------------------------------------------------------ point */
static int curve_of(mpECurve_ptr p) { int k; for (k = 0; k < NS; k++) if (ci[k] && (mpECurve_ptr)C[k] == p) return k; return -1; }
static void settle(int i) { pi_[i] = 2; pc[i] = curve_of(P[i]->cvp); }
static void c_pinit(void) { int i = slot(1), c = slot(2); NEED(i >= 0 && c >= 0 && !pi_[i] && ci[c] == 2); mpECP_init(P[i], C[c]); pi_[i] = 1; pc[i] = c; out("ok"); }
static void c_pclr(void) { int i = slot(1); NEED(i >= 0 && pi_[i]); mpECP_clear(P[i]); pi_[i] = 0; out("ok"); }
#define PD(i) NEED((i) >= 0 && pi_[i])
#define PV(i) NEED((i) >= 0 && pi_[i] == 2)
static int samecurve(int a, int b) { return mpECurve_cmp(P[a]->cvp, P[b]->cvp) == 0; }
static void c_pset(void) { int d = slot(1), a = slot(2); PD(d); PV(a); mpECP_set(P[d], P[a]); settle(d); out("ok"); }
static void c_psetz(void) { int d = slot(1), c = slot(4); PD(d); NEED(c >= 0 && ci[c] == 2); mpz_t x, y; mpz_init(x); mpz_init(y); ztok(x, 2); ztok(y, 3); mpECP_set_mpz(P[d], x, y, C[c]); settle(d); mpz_clear(x); mpz_clear(y); out("ok"); }
static void c_psetf(void) { int d = slot(1), c = slot(4); PD(d); NEED(c >= 0 && ci[c] == 2); mpz_t x, y; mpFp_t fx, fy; mpz_init(x); mpz_init(y); ztok(x, 2); ztok(y, 3); mpFp_init_fp(fx, C[c]->fp); mpFp_init_fp(fy, C[c]->fp); mpFp_set_mpz_fp(fx, x, C[c]->fp); mpFp_set_mpz_fp(fy, y, C[c]->fp);
    mpECP_set_mpFp(P[d], fx, fy, C[c]); settle(d); mpFp_clear(fx); mpFp_clear(fy); mpz_clear(x); mpz_clear(y); out("ok"); }
static void c_pneu(void) { int d = slot(1), c = slot(2); PD(d); NEED(c >= 0 && ci[c] == 2); mpECP_set_neutral(P[d], C[c]); settle(d); out("ok"); }
static void c_paff(void) { int a = slot(1); PV(a); mpz_t x, y; mpFp_t fx, fy; mpz_init(x); mpz_init(y); mpFp_init_fp(fx, P[a]->cvp->fp); mpFp_init_fp(fy, P[a]->cvp->fp);
    mpz_set_mpECP_affine_x(x, P[a]); mpz_set_mpECP_affine_y(y, P[a]); mpFp_set_mpECP_affine_x(fx, P[a]); mpFp_set_mpECP_affine_y(fy, P[a]);
    out("ok "); outz(x); out(" "); outz(y); outf(fx); outf(fy); mpz_clear(x); mpz_clear(y); mpFp_clear(fx); mpFp_clear(fy); }
static void c_paffy(void) { /* y first: the order of observations must not matter */
    int a = slot(1); PV(a); mpz_t x, y; mpz_init(x); mpz_init(y); mpz_set_mpECP_affine_y(y, P[a]); mpz_set_mpECP_affine_x(x, P[a]); out("ok "); outz(x); out(" "); outz(y); mpz_clear(x); mpz_clear(y); }
static void c_pcurve(void) { int a = slot(1); PV(a); out("ok %d", curve_of(P[a]->cvp)); }
static void export_b(mpECP_t p, int comp) { int n = mpECP_out_bytelen(p, comp); unsigned char *b = malloc(n + 16); memset(b, 0xA5, n + 16);
#ifdef EXACT_BUF
    free(b); b = malloc(n); memset(b, 0xA5, n);
#endif
    mpECP_out_bytes(b, p, comp);
    outhex(b, n);
#ifndef EXACT_BUF
    { int k; for (k = n; k < n + 16; k++) if (b[k] != 0xA5) { out("!OVERRUN"); break; } }
#endif
    free(b); }
static void c_pout(void) { int a = slot(1); PV(a); out("ok "); export_b(P[a], atoi(tok[2])); out(" %d", mpECP_out_bytelen(P[a], atoi(tok[2]))); }
static void c_pouts(void) { int a = slot(1); PV(a); int comp = atoi(tok[2]); int n = mpECP_out_strlen(P[a], comp); 
    char *b;
#ifdef EXACT_BUF
    b = malloc(n + 1); memset(b, 'z', n + 1);
#else
    b = malloc(n + 17); memset(b, 'z', n + 17); b[n + 16] = 0;
#endif
    mpECP_out_str(b, P[a], comp);
    out("ok %s %d", b, n);
#ifndef EXACT_BUF
    { int k; for (k = n + 1; k < n + 16; k++) if (b[k] != 'z') { out("!OVERRUN"); break; } }
#endif
    free(b); }
static void c_pbytes(void) { int d = slot(1), c = slot(3), r; PD(d); NEED(c >= 0 && ci[c] == 2); size_t n; unsigned char *b = bytes_tok(2, &n); r = mpECP_set_bytes(P[d], b, n, C[c]); free(b); if (r == 0) settle(d); else if (pi_[d] == 2) pc[d] = curve_of(P[d]->cvp); out("ok %d", r != 0); }
static void c_pstr(void) { int d = slot(1), c = slot(3), r; PD(d); NEED(c >= 0 && ci[c] == 2); char *s = str_tok(2); r = mpECP_set_str(P[d], s, C[c]); free(s); if (r == 0) settle(d); else if (pi_[d] == 2) pc[d] = curve_of(P[d]->cvp); out("ok %d", r != 0); }
static void c_pswap(void) { int a = slot(1), b = slot(2); PV(a); PV(b); NEED(samecurve(a, b)); mpECP_swap(P[a], P[b]); settle(a); settle(b); out("ok"); }
static void c_pcswap(void) { int a = slot(1), b = slot(2); PV(a); PV(b); NEED(samecurve(a, b)); NEED(P[a]->base_bits == 0 && P[b]->base_bits == 0); mpECP_cswap(P[a], P[b], (int)strtol(tok[3], 0, 0)); out("ok"); }
static void c_padd(void) { int d = slot(1), a = slot(2), b = slot(3); PD(d); PV(a); PV(b); NEED(samecurve(a, b)); mpECP_add(P[d], P[a], P[b]); settle(d); out("ok"); }
static void c_psub(void) { int d = slot(1), a = slot(2), b = slot(3); PD(d); PV(a); PV(b); NEED(samecurve(a, b)); mpECP_sub(P[d], P[a], P[b]); settle(d); out("ok"); }
static void c_pdbl(void) { int d = slot(1), a = slot(2); PD(d); PV(a); mpECP_double(P[d], P[a]); settle(d); out("ok"); }
static void c_pneg(void) { int d = slot(1), a = slot(2); PD(d); PV(a); mpECP_neg(P[d], P[a]); settle(d); out("ok"); }
static void c_pcmp(void) { int a = slot(1), b = slot(2); PV(a); PV(b); out("ok %d", mpECP_cmp(P[a], P[b]) != 0); }
static void c_pmulz(void) { int d = slot(1), a = slot(2); PD(d); PV(a); mpz_t z; mpz_init(z); ztok(z, 3); mpECP_scalar_mul_mpz(P[d], P[a], z); mpz_clear(z); settle(d); out("ok"); }
static void c_pmulf(void) { int d = slot(1), a = slot(2), f = slot(3); PD(d); PV(a); NEED(f >= 0 && fi[f] && canonical(f) && mpz_cmp(F[f]->fp->p, P[a]->cvp->n) == 0); mpECP_scalar_mul(P[d], P[a], F[f]); settle(d); out("ok"); }
static void c_pbset(void) { int a = slot(1); PV(a); mpECP_scalar_base_mul_setup(P[a]); out("ok"); }
static void c_pbmulz(void) { int d = slot(1), a = slot(2); PD(d); PV(a); mpz_t z; mpz_init(z); ztok(z, 3); mpECP_scalar_base_mul_mpz(P[d], P[a], z); mpz_clear(z); settle(d); out("ok"); }
static void c_pbmulf(void) { int d = slot(1), a = slot(2), f = slot(3); PD(d); PV(a); NEED(f >= 0 && fi[f] && canonical(f) && mpz_cmp(F[f]->fp->p, P[a]->cvp->n) == 0); mpECP_scalar_base_mul(P[d], P[a], F[f]); settle(d); out("ok"); }
static void c_prand(void) { int d = slot(1), c = slot(2); PD(d); NEED(c >= 0 && ci[c] == 2); mpECP_urandom(P[d], C[c]); settle(d); out("ok"); }

/* ------------------------------------------------------------ ecdsa */
static void c_hnew(void) { int i = slot(1), c = slot(2), r; NEED(i >= 0 && !hi[i] && c >= 0 && ci[c] == 2); mpECDSAHashfunc_t q; NEED(pick_hash(tok[3], q)); r = mpECDSASignatureScheme_init(H[i], C[c], q); mpECDSAHashfunc_clear(q); if (r == 0) { hi[i] = 1; hc[i] = c; } out("ok %d", r != 0); }
static int hinuse(int i) { int k; for (k = 0; k < NS; k++) if (si[k] && sh[k] == i) return 1; return 0; }
static void c_hclr(void) { int i = slot(1); NEED(i >= 0 && hi[i] && !hinuse(i)); mpECDSASignatureScheme_clear(H[i]); hi[i] = 0; out("ok"); }
static void outsig(int i) { out(" "); mpz_t z; mpz_init(z); mpz_set_mpFp(z, S[i]->r); outz(z); out(" "); mpz_set_mpFp(z, S[i]->s); outz(z); mpz_clear(z); }
static void c_sign(void) { int i = slot(1), h = slot(2), f = slot(3), r; NEED(i >= 0 && !si[i] && h >= 0 && hi[h] && f >= 0 && fi[f] && canonical(f)); size_t n; unsigned char *m = bytes_tok(4, &n); r = mpECDSASignature_init_Sign(S[i], H[h], F[f], m, n); free(m); if (r == 0) { si[i] = 1; sh[i] = h; } out("ok %d", r != 0); if (r == 0) outsig(i); }
static void c_sver(void) { int i = slot(1), p = slot(2), r; NEED(i >= 0 && si[i]); PV(p); size_t n; unsigned char *m = bytes_tok(3, &n); r = mpECDSASignature_verify_cmp(S[i], P[p], m, n); free(m); out("ok %d", r != 0); }
static void c_simpb(void) { int i = slot(1), h = slot(2), r; NEED(i >= 0 && !si[i] && h >= 0 && hi[h]); size_t n; unsigned char *m = bytes_tok(3, &n); r = mpECDSASignature_init_import_bytes(S[i], H[h], m, n); free(m); if (r == 0) { si[i] = 1; sh[i] = h; } out("ok %d", r != 0); if (r == 0) outsig(i); }
static void c_simps(void) { int i = slot(1), h = slot(2), r; NEED(i >= 0 && !si[i] && h >= 0 && hi[h]); char *m = str_tok(3); r = mpECDSASignature_init_import_str(S[i], H[h], m); free(m); if (r == 0) { si[i] = 1; sh[i] = h; } out("ok %d", r != 0); if (r == 0) outsig(i); }
static void c_sexpb(void) { int i = slot(1); NEED(i >= 0 && si[i]); size_t n = 0; unsigned char *b = mpECDSASignature_export_bytes(S[i], &n); out("ok "); outhex(b, n); free(b); }
static void c_sexps(void) { int i = slot(1); NEED(i >= 0 && si[i]); char *b = mpECDSASignature_export_str(S[i]); out("ok %s", b); free(b); }
static void c_sget(void) { int i = slot(1); NEED(i >= 0 && si[i]); out("ok"); outsig(i); }
static void c_smk(void) { /* build a signature value by hand through the public struct: smk i h r s */
    int i = slot(1), h = slot(2); NEED(i >= 0 && !si[i] && h >= 0 && hi[h]); mpz_t z; mpz_init(z); mpFp_init(S[i]->r, H[h]->cvp->n); mpFp_init(S[i]->s, H[h]->cvp->n); ztok(z, 3); mpFp_set_mpz(S[i]->r, z, H[h]->cvp->n); ztok(z, 4); mpFp_set_mpz(S[i]->s, z, H[h]->cvp->n); mpz_clear(z); S[i]->sscheme = H[h]; si[i] = 1; sh[i] = h; out("ok"); }
static void c_sclr(void) { int i = slot(1); NEED(i >= 0 && si[i]); mpECDSASignature_clear(S[i]); si[i] = 0; out("ok"); }

/* ------------------------------------------------------------ elgamal */
static void c_eenc(void) { int i = slot(1), k = slot(2), m = slot(3), r; NEED(i >= 0 && !ei[i]); PV(k); PV(m); r = mpECElgamal_init_encrypt(E[i], P[k], P[m]); if (r == 0) ei[i] = 1; out("ok %d", r != 0); }
static void c_edec(void) { int d = slot(1), f = slot(2), i = slot(3), r; NEED(d >= 0 && !pi_[d] && f >= 0 && fi[f] && canonical(f) && i >= 0 && ei[i]); r = mpECElgamal_init_decrypt(P[d], F[f], E[i]); if (r == 0) settle(d); out("ok %d", r != 0); }
static void c_eget(void) { int i = slot(1); NEED(i >= 0 && ei[i]); out("ok "); export_b(E[i]->C, 0); out(" "); export_b(E[i]->D, 0); }
static void c_emk(void) { int i = slot(1), a = slot(2), b = slot(3); NEED(i >= 0 && !ei[i]); PV(a); PV(b); mpECP_init(E[i]->C, P[a]->cvp); mpECP_init(E[i]->D, P[b]->cvp); mpECP_set(E[i]->C, P[a]); mpECP_set(E[i]->D, P[b]); ei[i] = 1; out("ok"); }
static void c_eclr(void) { int i = slot(1); NEED(i >= 0 && ei[i]); mpECElgamal_clear(E[i]); ei[i] = 0; out("ok"); }

/* ------------------------------------------------------------ misc */
static void c_zrand(void) { mpz_t b, r; mpz_init(b); mpz_init(r); ztok(b, 1); int k, n = atoi(tok[2]); out("ok"); for (k = 0; k < n; k++) { mpz_urandom(r, b); out(" "); outz(r); } mpz_clear(b); mpz_clear(r); }
static void c_zrandx(void) { /* destination previously holding a value: zrandx bound init */
    mpz_t b, r; mpz_init(b); mpz_init(r); ztok(b, 1); ztok(r, 2); mpz_urandom(r, b); out("ok "); outz(r); out(" "); outz(b); mpz_clear(b); mpz_clear(r); }
static void c_zralias(void) { mpz_t b; mpz_init(b); ztok(b, 1); mpz_urandom(b, b); out("ok "); outz(b); mpz_clear(b); }
/* forkrand N bound spec: draws interleaved with forks; see checks/R02 */
static void reset(void) { int k;
    for (k = 0; k < NS; k++) if (si[k]) { mpECDSASignature_clear(S[k]); si[k] = 0; }
    for (k = 0; k < NS; k++) if (hi[k]) { mpECDSASignatureScheme_clear(H[k]); hi[k] = 0; }
    for (k = 0; k < NS; k++) if (ei[k]) { mpECElgamal_clear(E[k]); ei[k] = 0; }
    for (k = 0; k < NS; k++) if (pi_[k]) { mpECP_clear(P[k]); pi_[k] = 0; }
    for (k = 0; k < NS; k++) if (fi[k]) { mpFp_clear(F[k]); fi[k] = 0; }
    for (k = 0; k < NS; k++) if (ci[k]) { mpECurve_clear(C[k]); ci[k] = 0; }
}
static void c_reset(void) { reset(); out("ok"); }
static void c_mem(void) { out("ok %ld %ld", live_blocks, live_bytes); }
static void c_dirty(void) { out("ok %ld %ld %zu %zu", dirty_frees, scoped_frees, dirty_size, dirty_off); dirty_frees = scoped_frees = 0; (void)scoped_nonempty; }
static void c_safeclean(void) {
#ifdef TRACK_ALLOC
    fill = 0;
#endif
    _enable_gmp_safe_clean(); mp_get_memory_functions(&lib_alloc, &lib_realloc, &lib_free); mp_set_memory_functions(my_alloc, my_realloc, my_free); out("ok"); }
/* raw exercise of GMP's allocation functions: galloc pattern  (slots of blocks) */
static unsigned char *G_[NS]; static size_t Gn[NS];
static void c_ga(void) { int i = slot(1); NEED(i >= 0 && !G_[i]); void *(*a)(size_t); mp_get_memory_functions(&a, NULL, NULL); Gn[i] = strtoul(tok[2], 0, 10); NEED(Gn[i] > 0); G_[i] = a(Gn[i]); memset(G_[i], strtoul(tok[3], 0, 10), Gn[i]); out("ok"); }
static void c_gr(void) { int i = slot(1); NEED(i >= 0 && G_[i]); void *(*r)(void *, size_t, size_t); mp_get_memory_functions(NULL, &r, NULL); size_t n = strtoul(tok[2], 0, 10), k, m; int f = strtoul(tok[3], 0, 10); NEED(n > 0);
    unsigned char first = G_[i][0]; m = n < Gn[i] ? n : Gn[i]; unsigned char *cp = malloc(m); memcpy(cp, G_[i], m); (void)first;
    G_[i] = r(G_[i], Gn[i], n); int same = memcmp(cp, G_[i], m) == 0; free(cp); for (k = Gn[i]; k < n; k++) G_[i][k] = f; Gn[i] = n; out("ok %d", same); }
static void c_gf(void) { int i = slot(1); NEED(i >= 0 && G_[i]); void (*f)(void *, size_t); mp_get_memory_functions(NULL, NULL, &f); f(G_[i], Gn[i]); G_[i] = NULL; out("ok"); }
/* forkprog <prog> <curve> <scheme> <keyfield> <pubpoint>
 * z draw an integer below 2^256, f a field element, p a random point,
 * s sign (digest "m"), e encrypt, '(' fork a child that runs up to the matching ')',
 * while the parent continues behind it at once; 'w' wait for the children so far. */
static int fp_fd, fp_curve, fp_h, fp_f, fp_p;
static void fp_emit(const char *tag, int who, const char *v) { char b[3000]; int n = snprintf(b, sizeof b, "%s:%d:%s\n", tag, who, v); if (write(fp_fd, b, n) != n) _exit(4); }
static int fp_next = 0;
static void fp_run(const char *p, const char *end, int who) {
    int kids = 0, seq = 0;
    while (p < end) {
        outlen = 0; outbuf[0] = 0;
        switch (*p) {
        case 'z': { mpz_t b, r; mpz_init(b); mpz_init(r); mpz_setbit(b, 256); mpz_urandom(r, b); outz(r); fp_emit("z", who, outbuf); mpz_clear(b); mpz_clear(r); break; }
        case 'f': { mpFp_t f; mpFp_init_fp(f, C[fp_curve]->fp); mpFp_urandom(f, C[fp_curve]->fp->p); outf(f); fp_emit("f", who, outbuf + 1); mpFp_clear(f); break; }
        case 'p': { mpECP_t q; mpECP_init(q, C[fp_curve]); mpECP_urandom(q, C[fp_curve]); export_b(q, 0); fp_emit("p", who, outbuf); mpECP_clear(q); break; }
        case 's': { mpECDSASignature_t g; unsigned char m[1] = {'m'}; if (mpECDSASignature_init_Sign(g, H[fp_h], F[fp_f], m, 1) == 0) { mpz_t z; mpz_init(z); mpz_set_mpFp(z, g->r); outz(z); out(","); mpz_set_mpFp(z, g->s); outz(z); mpz_clear(z); fp_emit("s", who, outbuf); mpECDSASignature_clear(g); } break; }
        case 'e': { mpECElgamalCiphertext_t g; if (mpECElgamal_init_encrypt(g, P[fp_p], P[fp_p]) == 0) { export_b(g->C, 0); fp_emit("e", who, outbuf); mpECElgamal_clear(g); } break; }
        case 'w': while (kids > 0) { int st; if (wait(&st) > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fp_emit("X", who, "child died"); kids--; } break;
        case '(': {
            const char *q = p; int d = 0, me = ++seq;
            for (; q < end; q++) { if (*q == '(') d++; if (*q == ')' && --d == 0) break; }
            fflush(stdout);
            pid_t c = fork();
            if (c == 0) { fp_run(p + 1, q, who * 10 + me); _exit(0); }
            if (c < 0) fp_emit("X", who, "fork"); else kids++;
            p = q; break; }
        default: break;
        }
        p++;
    }
    while (kids > 0) { int st; if (wait(&st) > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fp_emit("X", who, "child died"); kids--; }
}
static void c_forkprog(void) { int pf[2]; (void)fp_next;
    fp_curve = slot(2); fp_h = slot(3); fp_f = slot(4); fp_p = slot(5);
    NEED(fp_curve >= 0 && ci[fp_curve] == 2 && fp_h >= 0 && hi[fp_h] && fp_f >= 0 && fi[fp_f] == 2); PV(fp_p);
    FILE *tf = tmpfile(); NEED(tf != NULL); (void)pf;
    fp_fd = dup(fileno(tf)); int fl = fcntl(fp_fd, F_GETFL); fcntl(fp_fd, F_SETFL, fl | O_APPEND);
    char *prog = strdup(tok[1]);
    fp_run(prog, prog + strlen(prog), 1);
    free(prog); close(fp_fd);
    outlen = 0; outbuf[0] = 0;
    out("ok");
    fseek(tf, 0, SEEK_SET);
    char *ln = NULL; size_t cp = 0; ssize_t n;
    while ((n = getline(&ln, &cp, tf)) > 0) { if (ln[n - 1] == '\n') ln[--n] = 0; out(" %s", ln); }
    free(ln); fclose(tf);
}
static void c_echo(void) { out("ok %d", nt); }

static const struct { const char *n; void (*f)(void); int args; } T[] = {
    {"finit", c_finit, 2}, {"fclr", c_fclr, 1}, {"fsetz", c_fsetz, 3}, {"fsetzfp", c_fsetzfp, 3}, {"fsetui", c_fsetui, 3}, {"fsetuifp", c_fsetuifp, 3}, {"fset", c_fset, 2}, {"fget", c_fget, 1}, {"fgetz", c_fget_z, 2},
    {"f3", c_f3, 4}, {"f2", c_f2, 3}, {"fui", c_fui, 4}, {"fpowz", c_fpowz, 3}, {"fswap", c_fswap, 2}, {"fcswap", c_fcswap, 3}, {"fcmp", c_fcmp, 2}, {"fcmpui", c_fcmpui, 2}, {"fcmpz", c_fcmpz, 2}, {"ftst", c_ftst, 2}, {"frand", c_frand, 2},
    {"cinit", c_cinit, 1}, {"cz", c_cz, 10}, {"cs", c_cs, 10}, {"cn", c_cn, 2}, {"cset", c_cset, 2}, {"cclr", c_cclr, 1}, {"ccmp", c_ccmp, 2}, {"cchk", c_cchk, 3}, {"cdump", c_cdump, 1}, {"clist", c_clist, 0},
    {"pinit", c_pinit, 2}, {"pclr", c_pclr, 1}, {"pset", c_pset, 2}, {"psetz", c_psetz, 4}, {"psetf", c_psetf, 4}, {"pneu", c_pneu, 2}, {"paff", c_paff, 1}, {"paffy", c_paffy, 1}, {"pcurve", c_pcurve, 1}, {"pout", c_pout, 2}, {"pouts", c_pouts, 2}, {"pbytes", c_pbytes, 3}, {"pstr", c_pstr, 3},
    {"pswap", c_pswap, 2}, {"pcswap", c_pcswap, 3}, {"padd", c_padd, 3}, {"psub", c_psub, 3}, {"pdbl", c_pdbl, 2}, {"pneg", c_pneg, 2}, {"pcmp", c_pcmp, 2}, {"pmulz", c_pmulz, 3}, {"pmulf", c_pmulf, 3}, {"pbset", c_pbset, 1}, {"pbmulz", c_pbmulz, 3}, {"pbmulf", c_pbmulf, 3}, {"prand", c_prand, 2},
    {"hnew", c_hnew, 3}, {"hclr", c_hclr, 1}, {"sign", c_sign, 4}, {"sver", c_sver, 3}, {"simpb", c_simpb, 3}, {"simps", c_simps, 3}, {"sexpb", c_sexpb, 1}, {"sexps", c_sexps, 1}, {"sget", c_sget, 1}, {"smk", c_smk, 4}, {"sclr", c_sclr, 1},
    {"eenc", c_eenc, 3}, {"edec", c_edec, 3}, {"eget", c_eget, 1}, {"emk", c_emk, 3}, {"eclr", c_eclr, 1},
    {"zrand", c_zrand, 2}, {"zrandx", c_zrandx, 2}, {"zralias", c_zralias, 1}, {"reset", c_reset, 0}, {"mem", c_mem, 0}, {"dirty", c_dirty, 0}, {"safeclean", c_safeclean, 0}, {"ga", c_ga, 3}, {"gr", c_gr, 3}, {"gf", c_gf, 1}, {"forkprog", c_forkprog, 5}, {"echo", c_echo, 0},
};

static void exec_line(char *line) {
    char *save = NULL, *t;
    size_t k; int done = 0;
    nt = 0;
    for (t = strtok_r(line, " ", &save); t && nt < MAXTOK; t = strtok_r(NULL, " ", &save)) tok[nt++] = t;
    outlen = 0; outbuf[0] = 0;
    for (k = 0; nt && k < sizeof T / sizeof *T; k++) if (!strcmp(tok[0], T[k].n)) { if (nt != T[k].args + 1) bad("argc"); else T[k].f(); done = 1; break; }
    if (!done) bad("cmd");
}

#ifdef THREADS
/* A batch is lines "<thread> <command>"; on "." every thread runs its own
 * lines concurrently on its own objects; replies come back in input order. */
#define MAXT 16
static struct job { char **in, **res; int *thr; int n, id; } jb[MAXT];
static char **L; static char **R; static int *W; static int nl, cl;
static pthread_barrier_t bar;
static void *runner(void *a) {
    long id = (long)a; int k;
    outcap = 1 << 16; outbuf = malloc(outcap);
    pthread_barrier_wait(&bar);
    for (k = 0; k < nl; k++) if (W[k] == id) { exec_line(L[k]); R[k] = strdup(outbuf); }
    reset();
    free(outbuf);
    return NULL;
}
int main(void) {
    char *line = NULL; size_t cap = 0; ssize_t n; long k;
    if (sodium_init() < 0) return 3;
    (void)jb;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        if (!strcmp(line, ".")) {
            pthread_t th[MAXT]; int nt_ = 0, used[MAXT] = {0};
            for (k = 0; k < nl; k++) used[W[k]] = 1;
            for (k = 0; k < MAXT; k++) nt_ += used[k];
            if (nt_) {
                pthread_barrier_init(&bar, NULL, nt_);
                for (k = 0; k < MAXT; k++) if (used[k]) pthread_create(&th[k], NULL, runner, (void *)k);
                for (k = 0; k < MAXT; k++) if (used[k]) pthread_join(th[k], NULL);
                pthread_barrier_destroy(&bar);
            }
            for (k = 0; k < nl; k++) { puts(R[k] ? R[k] : "BAD none"); free(R[k]); free(L[k]); R[k] = NULL; }
            nl = 0;
            puts("."); fflush(stdout);
            continue;
        }
        if (nl == cl) { cl = cl ? 2 * cl : 256; L = realloc(L, cl * sizeof *L); R = realloc(R, cl * sizeof *R); W = realloc(W, cl * sizeof *W); }
        char *sp = strchr(line, ' ');
        W[nl] = sp ? atoi(line) % MAXT : 0; L[nl] = strdup(sp ? sp + 1 : ""); R[nl] = NULL; nl++;
    }
    return 0;
}
#else
int main(int argc, char **argv) {
    char *line = NULL; size_t cap = 0; ssize_t n;
    (void)argc; (void)argv;
    if (sodium_init() < 0) return 3;
    outcap = 1 << 16; outbuf = malloc(outcap);
    cap = 1 << 16; line = malloc(cap);
    static char iob[1 << 16], oob[1 << 16];
    setvbuf(stdin, iob, _IOFBF, sizeof iob);
    setvbuf(stdout, oob, _IOFBF, sizeof oob);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        if (!strcmp(line, ".")) { puts("."); fflush(stdout); continue; }
        exec_line(line);
        fputs(outbuf, stdout); putchar('\n');
    }
    reset();
    free(outbuf); free(line);
    return 0;
}
#endif
