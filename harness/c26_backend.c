/* C26: every operation of a substitute hash / crypto backend fails, one at a time; contexts
 * must be initialised, used and released in order and failures must be reported. The
 * substitute keeps its state on the heap, as a real one would (address sanitizer). */
#define _GNU_SOURCE
#include "mc.h"
#include "pu.h"
#include "scen.h"
#include <bpak/crypto.h>
#include <mbedtls/sha256.h>
#include <mbedtls/sha512.h>
#include <unistd.h>
#include "mbedtls_wrapper.h"

#define BAD(...) do { if (getenv("MC_SURVEY")) { printf("SURVEY %s: ", cur); printf(__VA_ARGS__); puts(""); fflush(stdout); return; } mc_fail(__VA_ARGS__); } while (0)
static char cur[600], trouble[200];
enum { O_INIT, O_UPDATE, O_FINAL, O_VERIFY, O_SIGN, O_PUB, O_PRI, O_PARSE, NO };
static const char *on[] = {"hash init", "hash update", "hash final", "verify", "sign", "load public key", "load private key", "parse public key"};
enum { M_ONCE, M_STICKY, M_LIE, NM };
static const char *mn[] = {"fails", "fails and so do all that follow", "gives a wrong verdict with its error code"};
#define MAXOPS 400000
static uint8_t kinds[MAXOPS];
static long opno, fail_at = -1;
static int mode, fired, live;
static bool rec;

static bool point(int kind)
{
    long k = opno++;
    if (rec) { if (k >= MAXOPS) mc_die("too many operations"); kinds[k] = kind; }
    if (k > 4 * MAXOPS) mc_fail("the operation does not end");
    if (fail_at >= 0 && (mode == M_STICKY ? k >= fail_at : k == fail_at)) { fired++; return true; }
    return false;
}
struct st { struct bpak_hash_context c; int state; struct st *next; };
enum { READY = 0x51, DONE, GONE };
static struct st *all; /* kept until the end of the run */
static struct st *get(struct bpak_hash_context *ctx, const char *what)
{
    for (struct st *s = all; s; s = s->next)
        if (s == ctx->backend.user_ctx) {
            if (s->state == GONE) { snprintf(trouble, sizeof trouble, "%s of a context that is released already", what); return NULL; }
            if (s->state == DONE && strcmp(what, "free")) { snprintf(trouble, sizeof trouble, "%s of a context that is finished already", what); return NULL; }
            if (s->c.kind != ctx->kind) { snprintf(trouble, sizeof trouble, "%s of a context whose kind has changed", what); return NULL; }
            return s;
        }
    snprintf(trouble, sizeof trouble, "%s of a context that is not initialised", what);
    return NULL;
}
static int h_init(struct bpak_hash_context *ctx)
{
    memset(&ctx->backend, 0x5a, sizeof ctx->backend);
    ctx->backend.user_ctx = (void *)0x10;
    if (ctx->kind != BPAK_HASH_SHA256 && ctx->kind != BPAK_HASH_SHA384 && ctx->kind != BPAK_HASH_SHA512) return -BPAK_UNSUPPORTED_HASH_ALG;
    if (point(O_INIT)) return -BPAK_FAILED;
    struct st *s = calloc(1, sizeof *s);
    s->c.kind = ctx->kind;
    s->state = READY;
    s->next = all; all = s;
    if (bpak_mbed_hash_init(&s->c)) mc_die("mbed init");
    ctx->backend.user_ctx = s;
    live++;
    return 0;
}
static int h_update(struct bpak_hash_context *ctx, const uint8_t *b, size_t n)
{
    struct st *s = get(ctx, "update");
    if (!s) return -BPAK_FAILED;
    if (point(O_UPDATE)) return -BPAK_FAILED;
    return bpak_mbed_hash_update(&s->c, b, n);
}
static int h_final(struct bpak_hash_context *ctx, uint8_t *b, size_t n, size_t *r)
{
    struct st *s = get(ctx, "final");
    if (!s) return -BPAK_FAILED;
    s->state = DONE;
    if (point(O_FINAL)) return -BPAK_FAILED;
    return bpak_mbed_hash_final(&s->c, b, n, r);
}
static void h_free(struct bpak_hash_context *ctx)
{
    struct st *s = get(ctx, "free");
    if (!s) return;
    s->state = GONE;
    bpak_mbed_hash_free(&s->c);
    live--;
}
static int c_verify(const uint8_t *sg, size_t sl, const uint8_t *h, size_t hl, enum bpak_hash_kind k, struct bpak_key *key, bool *v)
{
    if (point(O_VERIFY)) {
        if (mode == M_LIE) { *v = true; return -BPAK_FAILED; }
        *v = false;
        return mode == M_STICKY ? BPAK_OK : -BPAK_VERIFY_FAIL;
    }
    return bpak_mbed_verify(sg, sl, h, hl, k, key, v);
}
static int c_sign(const uint8_t *h, size_t hl, enum bpak_hash_kind k, struct bpak_key *key, uint8_t *s, size_t *n)
{
    if (point(O_SIGN)) {
        if (mode == M_LIE) { memset(s, 0xee, 70); *n = 70; }
        return -BPAK_SIGN_FAIL;
    }
    return bpak_mbed_sign(h, hl, k, key, s, n);
}
static int c_pub(const char *f, struct bpak_key **o) { return point(O_PUB) ? -BPAK_KEY_DECODE : bpak_mbed_load_public_key(f, o); }
static int c_pri(const char *f, struct bpak_key **o) { return point(O_PRI) ? -BPAK_KEY_DECODE : bpak_mbed_load_private_key(f, o); }
static int c_parse(const uint8_t *b, size_t n, struct bpak_key **o) { return point(O_PARSE) ? -BPAK_KEY_DECODE : bpak_mbed_parse_public_key(b, n, o); }

void srand(unsigned s) { (void)s; }
static char obuf[1 << 17];
static size_t olen;
static ssize_t o_write(void *u, const char *b, size_t n)
{
    (void)u;
    if (olen + n > sizeof obuf) mc_die("output too long");
    memcpy(obuf + olen, b, n);
    olen += n;
    return n;
}
enum { B_OWN, B_SUBST, B_NOHASH, B_NOCRYPTO };
static int run_sc(const struct sc *s, int backend)
{
    static const cookie_io_functions_t io = {NULL, o_write, NULL, NULL};
    static FILE *null;
    sc_restore(s);
    srandom(1);
    if (!null) null = fopen("/dev/null", "w");
    FILE *so = stdout, *se = stderr, *sc = fopencookie(NULL, "w", io);
    if (!getenv("MC_TOOLERR")) stderr = null;
    stdout = sc;
    olen = 0; opno = 0; fired = 0; live = 0; trouble[0] = 0;
    if (backend == B_OWN || backend == B_NOCRYPTO) bpak_hash_setup(bpak_mbed_hash_init, bpak_mbed_hash_update, bpak_mbed_hash_final, bpak_mbed_hash_free);
    else if (backend == B_NOHASH) bpak_hash_setup(NULL, NULL, NULL, NULL);
    else bpak_hash_setup(h_init, h_update, h_final, h_free);
    if (backend == B_OWN || backend == B_NOHASH) bpak_crypto_setup(bpak_mbed_verify, bpak_mbed_sign, bpak_mbed_load_public_key, bpak_mbed_load_private_key, bpak_mbed_parse_public_key);
    else if (backend == B_NOCRYPTO) bpak_crypto_setup(NULL, NULL, NULL, NULL, NULL);
    else bpak_crypto_setup(c_verify, c_sign, c_pub, c_pri, c_parse);
    int rc = sc_call(s);
    fflush(stdout);
    stdout = so;
    stderr = se;
    fclose(sc);
    while (all) { struct st *t = all; all = t->next; if (t->state != GONE) bpak_mbed_hash_free(&t->c); free(t); }
    mc_trans(opno);
    return rc;
}
static struct { uint8_t *d; size_t n; } refA, refO;
static bool uses[NO];
static void balance(int rc)
{
    if (trouble[0]) BAD("%s (exit %d)", trouble, rc);
    if (live) BAD("%d hash context(s) are never released (exit %d)", live, rc);
}
static void result(const struct sc *s, int rc)
{
    char w[300];
    if (rc) { mc_note("reported as errors", 1); return; }
    if (s->flags & C_FAIL) BAD("success is reported for an operation that cannot succeed");
    mc_note("successful with the complete result", 1);
    sc_watch(s, w);
    size_t n;
    uint8_t *d = mc_read_file(w, &n);
    const char *why;
    if (!d || !sc_result_ok(s, d, n, refA.d, refA.n, &why)) BAD("success is reported, but %s is not the intended result (%s)", strrchr(w, '/') + 1, d ? why : "missing");
    free(d);
    if (s->flags & C_OUT) if (olen != refO.n || memcmp(obuf, refO.d, olen)) BAD("success is reported, but the output is not the intended one (%zu of %zu bytes)", olen, refO.n);
}
static void scenario(const struct sc *s)
{
    char w[300];
    fail_at = -1;
    snprintf(cur, sizeof cur, "%s: built-in backend", s->name);
    mc_case("%s", cur);
    int rc = run_sc(s, B_OWN);
    if (s->flags & C_FAIL) MC_CHECK(rc != 0, "%s succeeds", s->name);
    else MC_CHECK(rc == 0, "%s fails (%d)", s->name, rc);
    int rc0 = rc;
    sc_watch(s, w);
    free(refA.d); free(refO.d);
    refA.d = mc_read_file(w, &refA.n);
    refO.d = malloc(olen + 1); memcpy(refO.d, obuf, olen); refO.n = olen;
    snprintf(cur, sizeof cur, "%s: substitute backend", s->name);
    mc_case("%s", cur);
    rec = true;
    rc = run_sc(s, B_SUBST);
    rec = false;
    long n = opno;
    balance(rc);
    MC_CHECK(rc == rc0, "exit %d, with the built-in backend %d", rc, rc0);
    result(s, rc);
    mc_eval(2);
    memset(uses, 0, sizeof uses);
    for (long k = 0; k < n; k++) uses[kinds[k]] = true;
    for (int b = B_NOHASH; b <= B_NOCRYPTO; b++) {
        snprintf(cur, sizeof cur, "%s: no %s backend", s->name, b == B_NOHASH ? "hash" : "crypto");
        mc_case("%s", cur);
        rc = run_sc(s, b);
        mc_eval(1);
        if (b == B_NOHASH ? uses[O_INIT] : (uses[O_VERIFY] || uses[O_SIGN] || uses[O_PUB] || uses[O_PRI] || uses[O_PARSE])) { if (!rc) BAD("success is reported"); }
        else result(s, rc);
    }
    mc_note("backend operations", n);
    long edge = mc_thorough ? 4000 : 12, room = mc_thorough ? 20000 : 60, mid = n - 2 * edge;
    long stride = mid > room ? mid / room : 1;
    for (long k = 0; k < n; k++) {
        /* updates are many; everything else is always a fault point */
        bool turn = kinds[k] == O_UPDATE && k > 0 && kinds[k - 1] == O_UPDATE && k + 1 < n && kinds[k + 1] == O_UPDATE;
        if (turn && k >= edge && k < n - edge && (k - edge) % stride) continue;
        for (mode = 0; mode < NM; mode++) {
            if (mode == M_LIE && kinds[k] != O_VERIFY && kinds[k] != O_SIGN) continue;
            if (!mc_mine()) continue;
            snprintf(cur, sizeof cur, "%s: operation %ld (%s) %s", s->name, k, on[kinds[k]], mn[mode]);
            mc_case("%s", cur);
            mc_state(mc_hash(s->name, strlen(s->name), k * 4 + mode));
            fail_at = k;
            rc = run_sc(s, B_SUBST);
            fail_at = -1;
            mc_eval(1);
            mc_distinct(mc_hash(s->name, strlen(s->name), rc * 16 + kinds[k]));
            balance(rc);
            if (fired && !rc) BAD("the failure is not reported");
            result(s, rc);
        }
    }
}
int mc_run(void)
{
    int ns;
    const struct sc *S = sc_list(&ns);
    sc_setup();
    for (int i = 0; i < ns; i++) {
        if (getenv("MC_SC") && !strstr(S[i].name, getenv("MC_SC"))) continue;
        scenario(&S[i]);
    }
    return 0;
}
