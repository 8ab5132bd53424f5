/* C07: bsdiff -> bspatch round trip, exhaustively over small inputs and structured larger ones,
 * over all compression modes and ways of feeding the delta. */
#include "mc.h"
#include "pu.h"
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>

struct out { uint8_t *d; size_t cap, n; off_t base; bool bad; };
static ssize_t wr(off_t off, uint8_t *b, size_t n, void *u)
{
    struct out *o = u;
    if (off != o->base + (off_t)o->n) o->bad = true;
    if (o->n + n > o->cap) {
        o->cap = (o->n + n) * 2 + 64;
        o->d = realloc(o->d, o->cap);
    }
    memcpy(o->d + o->n, b, n);
    o->n += n;
    return n;
}
struct pp { struct out out; const uint8_t *org; size_t on; off_t obase; bool badread; };
static ssize_t prd(off_t off, uint8_t *b, size_t n, void *u)
{
    struct pp *p = u;
    if (n == 0) return 0;
    off_t r = off - p->obase;
    if (r < 0 || (size_t)r > p->on || n > p->on - (size_t)r) { p->badread = true; return -1; }
    memcpy(b, p->org + r, n);
    return n;
}
static ssize_t pwr(off_t off, uint8_t *b, size_t n, void *u) { return wr(off, b, n, &((struct pp *)u)->out); }

static const char *cn[] = {"none", "heatshrink", "lzma"};
static const enum bpak_compression cv[] = {BPAK_COMPRESSION_NONE, BPAK_COMPRESSION_HS, BPAK_COMPRESSION_LZMA};

static uint8_t *diff(const uint8_t *o, size_t on, const uint8_t *t, size_t tn, int comp, size_t *dn)
{
    struct bpak_bsdiff_context c;
    struct out w = {.base = 4096 + 512 * comp};
    /* exactly sized copies: ASan sees any access outside the inputs */
    uint8_t *oc = malloc(on ? on : 1), *tc = malloc(tn ? tn : 1);
    memcpy(oc, o, on); memcpy(tc, t, tn);
    uint8_t *op = on ? oc : oc + 1, *tp = tn ? tc : tc + 1; /* empty inputs: one past the end */
    memset(&c, 0xA7, sizeof c);
    int rc = bpak_bsdiff_init(&c, op, on, tp, tn, wr, w.base, cv[comp], &w);
    MC_CHECK(rc == 0, "bsdiff_init returned %d", rc);
    ssize_t r = bpak_bsdiff(&c);
    MC_CHECK(r >= 0, "bsdiff returned %zd", r);
    MC_CHECK((size_t)r == w.n && !w.bad, "delta size %zd reported, %zu bytes written%s", r, w.n, w.bad ? " with gaps" : "");
    bpak_bsdiff_free(&c);
    MC_CHECK(!memcmp(oc, o, on) && !memcmp(tc, t, tn), "bsdiff modified its input");
    free(oc); free(tc);
    mc_trans(1);
    *dn = w.n;
    uint8_t *e = malloc(w.n ? w.n : 1); /* exact size */
    memcpy(e, w.d ? w.d : e, w.n);
    free(w.d);
    return e;
}
/* feed: 0 = whole; k>0 fixed chunks of k; -k = split after k bytes */
static void patch(const uint8_t *o, size_t on, const uint8_t *t, size_t tn, int comp, const uint8_t *d, size_t dn, int feed, int buflen)
{
    static struct bpak_bspatch_context c;
    struct pp p = {.org = o, .on = on, .obase = 7000, .out = {.base = 123}};
    uint8_t *buf = malloc(buflen);
    memset(buf, 0x5C, buflen);
    memset(&c, 0xA7, sizeof c);
    int rc = bpak_bspatch_init(&c, buf, buflen, dn, prd, 7000, pwr, 123, cv[comp], &p);
    MC_CHECK(rc == 0, "bspatch_init returned %d", rc);
    for (size_t pos = 0; pos < dn;) {
        size_t n = feed == 0 ? dn : feed > 0 ? (size_t)feed : pos == 0 ? (size_t)-feed : dn;
        if (n > dn - pos) n = dn - pos;
        uint8_t *ch = malloc(n);
        memcpy(ch, d + pos, n);
        rc = bpak_bspatch_write(&c, ch, n);
        free(ch);
        MC_CHECK(rc == 0, "bspatch_write(%zu bytes at %zu of %zu, feed %d, buffer %d) returned %d", n, pos, dn, feed, buflen, rc);
        pos += n;
    }
    ssize_t r = bpak_bspatch_final(&c);
    bpak_bspatch_free(&c);
    mc_trans(1); mc_eval(1);
    MC_CHECK(r == (ssize_t)tn, "bspatch_final returned %zd, target is %zu bytes (feed %d, buffer %d)", r, tn, feed, buflen);
    MC_CHECK(p.out.n == tn && !p.out.bad && (tn == 0 || !memcmp(p.out.d, t, tn)), "patched output differs from the target (feed %d, buffer %d)", feed, buflen);
    MC_CHECK(!p.badread, "patching read outside the origin (feed %d)", feed);
    free(p.out.d);
    free(buf);
}
static void pair(const uint8_t *o, size_t on, const uint8_t *t, size_t tn, int level)
{
    for (int comp = 0; comp < 3; comp++) {
        size_t dn, dn2;
        mc_case_add(" [%s]", cn[comp]);
        uint8_t *d = diff(o, on, t, tn, comp, &dn);
        if (level < 2) {
            uint8_t *d2 = diff(o, on, t, tn, comp, &dn2);
            MC_CHECK(dn == dn2 && !memcmp(d, d2, dn), "two runs of bsdiff on the same inputs differ");
            free(d2);
        }
        mc_distinct(mc_hash(d, dn, comp));
        if (comp == 2) {
            static const int f[] = {0, 1, 7};
            for (int i = 0; i < (level ? 2 : 3); i++) patch(o, on, t, tn, comp, d, dn, f[i], 64);
        } else {
            patch(o, on, t, tn, comp, d, dn, 0, 4096);
            patch(o, on, t, tn, comp, d, dn, 1, 2);
            if (level <= 1) {
                static const int bl[] = {2, 6, 512};
                for (size_t i = 1; i < dn && (level == 0 || i < 60); i++) patch(o, on, t, tn, comp, d, dn, -(int)i, bl[i % 3]);
                for (int k = 2; k <= 26 && k < (int)dn; k++) patch(o, on, t, tn, comp, d, dn, k, bl[k % 3]);
            } else {
                static const int k[] = {3, 23, 24, 25, 512, 4095, 4096, 4097};
                for (int i = 0; i < 8; i++) { patch(o, on, t, tn, comp, d, dn, k[i], 4096); patch(o, on, t, tn, comp, d, dn, k[i], 64); }
            }
        }
        free(d);
    }
}
/* i-th string over the alphabet, shortest first */
static size_t word(long i, int alpha, const uint8_t *sym, uint8_t *b)
{
    size_t n = 0;
    long cnt = 1;
    while (i >= cnt) { i -= cnt; cnt *= alpha; n++; }
    for (size_t k = 0; k < n; k++) { b[k] = sym[i % alpha]; i /= alpha; }
    return n;
}
static long nwords(int alpha, int len) { long t = 0, c = 1; for (int i = 0; i <= len; i++) { t += c; c *= alpha; } return t; }

static void all_words(int alpha, int olen, int tlen, int level)
{
    static const uint8_t sym[] = {'a', 'b', 0xff};
    uint8_t o[32], t[32];
    for (long i = 0; i < nwords(alpha, olen); i++)
        for (long j = 0; j < nwords(alpha, tlen); j++) {
            if (!mc_mine()) continue;
            size_t on = word(i, alpha, sym, o), tn = word(j, alpha, sym, t);
            mc_case("origin %s target %s", mc_hex(o, on), mc_hex(t, tn));
            pair(o, on, t, tn, level);
            mc_state(mc_hash(o, on, mc_hash(t, tn, on * 77)));
        }
}
static uint8_t B[300000], T[600000];
static size_t base(int kind, size_t n)
{
    pu_fill(B, n, kind + 9);
    if (kind == 1) for (size_t i = 0; i < n; i++) B[i] = "abcabd"[i % 6];
    if (kind == 2) memset(B, 0, n);
    if (kind == 3) for (size_t i = 0; i < n; i++) B[i] = (i / 4) >> (8 * (i % 4)); /* counter words */
    return n;
}
static void structured(void)
{
    static const size_t sz[] = {16, 100, 255, 257, 1000, 4095, 4096, 4097, 9000, 20000};
    int nsz = mc_thorough ? 10 : 9;
    for (int kind = 0; kind < 4; kind++)
        for (int s = 0; s < nsz; s++) {
            size_t n = sz[s];
            for (int e = 0; e < 11; e++)
                for (int p = 0; p < 5; p++) {
                    if (!mc_mine()) continue;
                    if (e > 6 && p) continue;
                    base(kind, n);
                    size_t at = p == 0 ? 0 : p == 1 ? n / 2 : p == 2 ? n - 1 : p == 3 ? n : n / 3, tn = 0;
                    size_t len = 1 + (n / 7) * (p & 1);
#define PUT(q, m) do { size_t m_ = (m); memcpy(T + tn, (q), m_); tn += m_; } while (0)
                    uint8_t ins[20000];
                    pu_fill(ins, sizeof ins, 99);
                    switch (e) {
                    case 0: PUT(B, at); PUT(ins, len); PUT(B + at, n - at); break;                                 /* insert */
                    case 1: PUT(B, at); if (at + len < n) PUT(B + at + len, n - at - len); break;                    /* delete */
                    case 2: PUT(B, n); for (size_t i = at; i < n && i < at + len; i++) T[i] ^= 0x80; break;          /* replace */
                    case 3: PUT(B + at, n - at); PUT(B, at); break;                                                  /* rotate */
                    case 4: PUT(B, n); PUT(B, at); break;                                                            /* repeat a prefix */
                    case 5: PUT(B, n); for (size_t i = p; i < n; i += 5 + 11 * p) T[i] += 1; break;                  /* sparse edits */
                    case 6: PUT(B, at); PUT(ins, 4097); PUT(B + at, n - at); PUT(ins, 700); break;
                    case 7: PUT(B, n); break;                                                                        /* equal */
                    case 8: PUT(ins, n < 20000 ? n : 20000); break;                                                  /* unrelated */
                    case 9: break;                                                                                   /* target empty */
                    case 10: for (size_t i = n; i > 0; i--) T[tn++] = B[i - 1]; break;                                /* reversed */
                    }
                    mc_case("structured: base kind %d size %zu edit %d position %d", kind, n, e, p);
                    pair(B, n, T, tn, n > 300 ? 2 : 1);
                    mc_state(mc_hash(T, tn, mc_hash(B, n, 5)));
                    if (e == 9) { mc_case_add(" swapped"); pair(T, 0, B, n, 2); }
                }
        }
}
/* sizes around 64 KiB and above, copies and differences longer than 64 KiB */
static void large(void)
{
    static const size_t sz[] = {65535, 65536, 65537, 131073, 262144, 300000};
    static uint8_t ins[70000];
    pu_fill(ins, sizeof ins, 5);
    for (int s = 0; s < 6; s++)
        for (int kind = 0; kind < 4; kind += 3)
            for (int e = 0; e < 7; e++)
                for (int comp = 0; comp < 3; comp++) {
                    if (!mc_thorough && s > 3 && (e + comp + s) % 3) continue;
                    if (!mc_mine()) continue;
                    size_t n = base(kind, sz[s]), tn = 0, on = n;
                    switch (e) {
                    case 0: PUT(B, n); T[n / 2] ^= 1; break;
                    case 1: PUT(B + n / 3, n - n / 3); PUT(ins, 66000); PUT(B, n / 3); break;
                    case 2: PUT(ins, 65537); break;
                    case 3: PUT(B, n); for (size_t i = 0; i < n; i += 700) T[i]++; break;
                    case 4: PUT(B + n - 1000, 1000); PUT(B, 1000); PUT(B + n - 900, 900); break;
                    case 5: on = 300; PUT(B, n); break;
                    case 6: PUT(B, 65536); PUT(B + 1, 300); PUT(B, n); break;
                    }
                    mc_case("large: base kind %d size %zu form %d, %s", kind, n, e, cn[comp]);
                    size_t dn;
                    uint8_t *d = diff(B, on, T, tn, comp, &dn);
                    static const int f[] = {0, 4096, 65536, 1021}, bl[] = {4096, 140000, 64, 65538};
                    for (int i = 0; i < 4; i++) patch(B, on, T, tn, comp, d, dn, f[i], bl[i]);
                    mc_distinct(mc_hash(d, dn, comp));
                    mc_state(mc_hash(T, tn, mc_hash(B, on, 5)));
                    free(d);
                }
}
/* targets larger than everything the compressors buffer */
static void huge(void)
{
    static const size_t sz[] = {13119905 + 7, 14000000, 9000000, 18000001};
    for (int s = 0; s < (mc_thorough ? 4 : 2); s++)
        for (int kind = 0; kind < 2; kind++)
            for (int comp = 0; comp < 3; comp++) {
                if (!mc_thorough && (kind || (comp < 2 && s))) continue;
                if (!mc_mine()) continue;
                size_t tn = sz[s], on = kind ? tn - 5 : 300, dn;
                uint8_t *t = malloc(tn), *o = malloc(on);
                pu_fill(t, tn, 17 + s);
                memcpy(o, t + tn / 2, kind ? 300 : on);
                if (kind) { memcpy(o, t + 5, on); for (size_t i = 0; i < on; i += 5001) o[i] ^= 1; }
                mc_case("huge: target of %zu bytes, origin of %zu, %s", tn, on, cn[comp]);
                mc_watchdog(600);
                uint8_t *d = diff(o, on, t, tn, comp, &dn);
                patch(o, on, t, tn, comp, d, dn, 4096, 4096);
                if (mc_thorough) patch(o, on, t, tn, comp, d, dn, 0, 65536);
                mc_distinct(mc_hash(d, dn, comp));
                free(d); free(t); free(o);
            }
}
int mc_run(void)
{
    huge();
    all_words(2, 4, 5, 0);
    if (mc_thorough) { all_words(2, 7, 7, 1); all_words(3, 4, 4, 0); }
    else all_words(3, 2, 3, 1);
    structured();
    large();
    return 0;
}
