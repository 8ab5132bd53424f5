/* C21: every heap allocation behind every command and library call fails, one at a time; the
 * heap must be balanced afterwards and a reported success must be a complete one.
 *
 * Plain build: the executable supplies the heap functions, so that every block of every
 * library involved is seen; freed blocks are poisoned and kept until the end of the run.
 * SAN build (-DC21_SAN): only the library's configurable allocator is replaced, and the
 * address sanitizer watches the memory. */
#define _GNU_SOURCE
#include "mc.h"
#include "pu.h"
#include "scen.h"
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/syscall.h>

#define BAD(...) do { if (getenv("MC_SURVEY")) { printf("SURVEY %s: ", cur); printf(__VA_ARGS__); puts(""); fflush(stdout); } else mc_fail(__VA_ARGS__); } while (0)
static char cur[700];
static bool armed, strict;
static long allocno, fail_at = -1, fail_two = -1;
static int mode, fired; /* 0 once, 1 from there on */
static const char *trouble;
static long live, live_b, nops;
enum { LIVE = 1, FREED };
struct blk { void *p; size_t n; uint8_t st, b; };
#define TB (1 << 19)
static struct blk *tab;
static unsigned ntab, *used;
static size_t held;
static void *maps[16]; static int nmaps;

static struct blk *slot(void *p)
{
    uint64_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL;
    unsigned i = h >> 45;
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (TB - 1);
    return &tab[i];
}
static void record(void *p, size_t n, int b)
{
    struct blk *s = slot(p);
    if (!s->p) {
        if (ntab >= TB * 3 / 4) mc_die("too many blocks");
        used[ntab++] = s - tab;
    }
    if (!s->p || s->st == FREED) live++;
    s->p = p; s->n = n; s->st = LIVE; s->b = b;
    if (b) live_b++;
}
static bool refuse(void)
{
    long k = allocno++;
    if (k > 4000000) { armed = false; mc_fail("the operation does not end (4 million allocations)"); }
    if (fail_at >= 0 && (mode ? k >= fail_at : k == fail_at || k == fail_two)) { fired++; errno = ENOMEM; return true; }
    return false;
}
static bool is_bpak; /* the current request comes from the configured allocator */
#ifndef C21_SAN
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
void *malloc(size_t n)
{
    if (!armed) return __libc_malloc(n);
    if (refuse()) return NULL;
    void *p = __libc_malloc(n);
    if (!p) return NULL;
    memset(p, 0xA5, n);
    record(p, n, is_bpak);
    return p;
}
void *calloc(size_t a, size_t b)
{
    if (!armed) return __libc_calloc(a, b);
    if (refuse()) return NULL;
    void *p = __libc_calloc(a, b);
    if (p) record(p, a * b, is_bpak);
    return p;
}
void free(void *p)
{
    if (!armed || !p) { __libc_free(p); return; }
    struct blk *s = slot(p);
    if (!s->p) { __libc_free(p); return; } /* from before */
    if (s->st == FREED) { trouble = "a block is released twice"; return; }
    if (s->b && !is_bpak && strict) trouble = "a block of the configured allocator is released with free()";
    if (!s->b && is_bpak && strict) trouble = "a block that does not come from the configured allocator is released through it";
    s->st = FREED;
    live--;
    if (s->b) live_b--;
    memset(p, 0xDD, s->n);
    held += s->n;
    if (held > (512u << 20)) mc_die("too much memory held back");
}
void *realloc(void *p, size_t n)
{
    if (!armed) return __libc_realloc(p, n);
    struct blk *s = p ? slot(p) : NULL;
    if (p && !s->p) return __libc_realloc(p, n);
    void *q = malloc(n);
    if (!q) return NULL;
    if (p) { memcpy(q, p, s->n < n ? s->n : n); free(p); }
    return q;
}
void *memalign(size_t a, size_t n)
{
    if (!armed) return __libc_memalign(a, n);
    if (refuse()) return NULL;
    void *p = __libc_memalign(a, n);
    if (p) record(p, n, is_bpak);
    return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
static void *raw_calloc(size_t a, size_t b) { is_bpak = true; void *p = calloc(a, b); is_bpak = false; return p; }
static void raw_free(void *p) { is_bpak = true; free(p); is_bpak = false; }
static void *real_free(void *p) { __libc_free(p); return NULL; }
#else
/* blocks are offset in a bigger one: a release with free() is an error for the sanitizer */
static void *raw_calloc(size_t a, size_t b)
{
    if (!armed) return calloc(a, b);
    if (refuse()) return NULL;
    void *p = calloc(a, b);
    if (p) record(p, a * b, 1);
    return p;
}
static void raw_free(void *p)
{
    if (!armed || !p) { free(p); return; }
    struct blk *s = slot(p);
    if (!s->p) { trouble = "a block that does not come from the configured allocator is released through it"; return; }
    if (s->st == FREED) { trouble = "a block is released twice"; return; }
    s->st = FREED;
    live--; live_b--;
    free(p); /* the sanitizer keeps it in quarantine; a reused address is recorded again */
}
#endif
/* mapped files */
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
    void *p = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
    if (armed && fd >= 0 && p != MAP_FAILED && nmaps < 16) maps[nmaps++] = p;
    return p;
}
int munmap(void *a, size_t n)
{
    if (armed) for (int i = 0; i < nmaps; i++) if (maps[i] == a) { maps[i] = maps[--nmaps]; break; }
    return syscall(SYS_munmap, a, n);
}
/* repeatable runs */
void srand(unsigned s) { (void)s; }
static uint64_t rs;
int mbedtls_ctr_drbg_random(void *c, unsigned char *o, size_t n)
{
    (void)c;
    for (size_t i = 0; i < n; i++) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; o[i] = rs >> 24; }
    return 0;
}

static char obuf[1 << 17], cbuf[BUFSIZ];
static size_t olen;
static ssize_t o_write(void *u, const char *b, size_t n)
{
    (void)u;
    if (olen + n > sizeof obuf) mc_die("output too long");
    memcpy(obuf + olen, b, n);
    olen += n;
    return n;
}
static int run_sc(const struct sc *s, bool on)
{
    static const cookie_io_functions_t io = {NULL, o_write, NULL, NULL};
    static FILE *null;
    static char nbuf[BUFSIZ];
    sc_restore(s);
    srandom(1);
    rs = 88172645463325252ULL;
    if (!null) { null = fopen("/dev/null", "w"); setvbuf(null, nbuf, _IOFBF, sizeof nbuf); }
    FILE *so = stdout, *se = stderr, *sc = fopencookie(NULL, "w", io);
    setvbuf(sc, cbuf, _IOFBF, sizeof cbuf);
    if (!getenv("MC_TOOLERR")) stderr = null;
    stdout = sc;
    olen = 0; allocno = 0; fired = 0; live = live_b = 0; nmaps = 0; trouble = NULL; held = 0;
    strict = s->fn != NULL;
    armed = on;
    int rc = sc_call(s);
    armed = false;
    if (s->fn && fflush(stdout) && !rc) rc = -1;
    stdout = so;
    stderr = se;
    fclose(sc);
    mc_trans(allocno);
#ifndef C21_SAN
    for (unsigned i = 0; i < ntab; i++) {
        struct blk *k = &tab[used[i]];
        if (k->st == FREED) {
            uint8_t *q = k->p;
            for (size_t j = 0; j < k->n; j++) if (q[j] != 0xDD) { trouble = "released memory is written to"; break; }
            real_free(q);
        }
    }
#endif
    for (unsigned i = 0; i < ntab; i++) memset(&tab[used[i]], 0, sizeof *tab);
    ntab = 0;
    return rc;
}
static struct { uint8_t *d; size_t n; } refA, refO;
static void judge(const struct sc *s, int rc)
{
    if (trouble) BAD("%s (exit %d)", trouble, rc);
#ifdef C21_SAN
    if (!strict) return; /* the tool itself uses the default allocator */
#endif
    if (live) BAD("%ld block(s) are never released, %ld of them from the configured allocator (exit %d)", live, live_b, rc);
    if (nmaps) BAD("%d mapped file(s) are never unmapped (exit %d)", nmaps, rc);
}
static void result(const struct sc *s, int rc)
{
    char w[300];
    if (rc) { mc_note("reported as errors", 1); return; }
    if (s->flags & C_FAIL) { BAD("success is reported for an operation that cannot succeed"); return; }
    mc_note(fired ? "successful in spite of the failure" : "allocation not reached", 1);
    sc_watch(s, w);
    size_t n;
    uint8_t *d = mc_read_file(w, &n);
    const char *why;
    if (!d || !sc_result_ok(s, d, n, refA.d, refA.n, &why)) BAD("success is reported, but %s is not the intended result (%s)", strrchr(w, '/') + 1, d ? why : "missing");
    free(d);
    if (s->flags & C_OUT) if (olen != refO.n || memcmp(obuf, refO.d, olen)) BAD("success is reported, but the output is not the intended one (%zu of %zu bytes)", olen, refO.n);
}
static void scenario(const struct sc *s)
{
    char w[300];
    fail_at = -1;
    snprintf(cur, sizeof cur, "%s: no failure", s->name);
    mc_case("%s", cur);
    run_sc(s, false); /* what the C library allocates once */
    int rc = run_sc(s, true);
    long n = allocno;
    judge(s, rc);
    if (s->flags & C_FAIL) MC_CHECK(rc != 0, "%s succeeds", s->name);
    else MC_CHECK(rc == 0, "%s fails without a fault (%d)", s->name, rc);
    sc_watch(s, w);
    free(refA.d); free(refO.d);
    refA.d = mc_read_file(w, &refA.n);
    refO.d = malloc(olen + 1); memcpy(refO.d, obuf, olen); refO.n = olen;
    mc_note("allocations", n);
    /* crypto makes thousands of small allocations: all of the first and last, then a stride */
    long edge = mc_thorough ? 3000 : 200, room = mc_thorough ? 20000 : 300, mid = n - 2 * edge;
    long stride = mid > room ? mid / room : 1;
    if (stride > 1) mc_note("scenarios thinned", 1);
    for (long k = 0; k < n; k++) {
        if (k >= edge && k < n - edge && (k - edge) % stride) continue;
        for (mode = 0; mode < 2; mode++) {
            if (!mc_mine()) continue;
            snprintf(cur, sizeof cur, "%s: allocation %ld of %ld fails%s", s->name, k, n, mode ? " and all after it" : "");
            mc_case("%s", cur);
            mc_watchdog(60);
            mc_state(mc_hash(s->name, strlen(s->name), k * 2 + mode));
            fail_at = k;
            rc = run_sc(s, true);
            fail_at = -1;
            mc_eval(1);
            mc_distinct(mc_hash(s->name, strlen(s->name), rc * 8 + (fired > 0)));
            judge(s, rc);
            result(s, rc);
        }
    }
    /* two failures, early ones and all of short operations */
    long cap = mc_thorough ? 400 : 40;
    mode = 0;
    for (long k = 0; k < n && k < cap; k++)
        for (long j = k + 1; j < n && j < cap; j++) {
            if (!mc_mine()) continue;
            snprintf(cur, sizeof cur, "%s: allocations %ld and %ld of %ld fail", s->name, k, j, n);
            mc_case("%s", cur);
            mc_watchdog(60);
            fail_at = k; fail_two = j;
            rc = run_sc(s, true);
            fail_at = fail_two = -1;
            mc_eval(1);
            mc_distinct(mc_hash(s->name, strlen(s->name), rc * 8 + 2 + (fired > 1)));
            judge(s, rc);
            result(s, rc);
        }
}
/* half a pair of functions is refused and leaves the configured pair in place */
static void *half_calloc(size_t a, size_t b) { trouble = "a refused allocation function is used"; return calloc(a, b); }
static void half_free(void *p) { trouble = "a refused release function is used"; free(p); }
int mc_run(void)
{
    int ns;
    const struct sc *S = sc_list(&ns);
    tab = calloc(TB, sizeof *tab);
    used = calloc(TB, sizeof *used);
    sc_setup();
    bool mine = mc_mine();
    if (mine) mc_case("incomplete pairs of allocation functions");
    int ok = bpak_set_calloc_free(raw_calloc, raw_free), h1 = bpak_set_calloc_free(half_calloc, NULL), h2 = bpak_set_calloc_free(NULL, half_free), h3 = bpak_set_calloc_free(NULL, NULL);
    if (mine) {
        mc_eval(1);
        MC_CHECK(ok == BPAK_OK, "the allocation functions are not accepted");
        MC_CHECK(h1 && h2 && h3, "an incomplete pair of allocation functions is accepted");
    }
    for (int i = 0; i < ns; i++) {
        if (getenv("MC_SC") && !strstr(S[i].name, getenv("MC_SC"))) continue;
        scenario(&S[i]);
    }
    return 0;
}
