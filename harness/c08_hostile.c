/* C08: hostile deltas. A reference patch interpreter decides what a control stream means;
 * every corruption of genuine deltas (all truncations, extensions, bit flips, byte values)
 * is fed to the real patcher and to the transport decoder. */
#include "mc.h"
#include "pu.h"
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>
#include <bpak/transport.h>
#include <bpak/pkg.h>
#include <lzma.h>

#define CAP 100000
static const char *cn[] = {"none", "heatshrink", "lzma"};
static const enum bpak_compression cv[] = {BPAK_COMPRESSION_NONE, BPAK_COMPRESSION_HS, BPAK_COMPRESSION_LZMA};
struct io { uint8_t *out; size_t n, maxn; off_t obase, wbase; const uint8_t *org; size_t on; size_t maxlen; };
static ssize_t rd(off_t off, uint8_t *b, size_t n, void *u)
{
    struct io *p = u;
    MC_CHECK(n <= p->maxlen, "origin read of %zu bytes into a %zu byte buffer", n, p->maxlen);
    off_t r;
    if (__builtin_sub_overflow(off, p->obase, &r) || r < 0 || (uint64_t)r > p->on) return n ? -7 : 0;
    if (n > p->on - (size_t)r) n = p->on - (size_t)r; /* short read */
    memcpy(b, p->org + r, n);
    return n;
}
static ssize_t wr(off_t off, uint8_t *b, size_t n, void *u)
{
    struct io *p = u;
    MC_CHECK(off >= p->wbase, "write at %lld, before the output range at %lld", (long long)off, (long long)p->wbase);
    MC_CHECK(n <= ((size_t)1 << 40), "write of %zu bytes", n);
    size_t r = off - p->wbase;
    if (r > CAP || n > CAP - r) return -9;
    memcpy(p->out + r, b, n); /* ASan checks the source */
    if (r + n > p->n) p->n = r + n;
    return n;
}
static struct io io;
static uint8_t outbuf[CAP];
/* returns <0 on a reported error, else the reported output size */
static ssize_t feed(const uint8_t *d, size_t dn, int comp, int chunk, int buflen, const uint8_t *org, size_t on)
{
    static struct bpak_bspatch_context c;
    uint8_t *buf = malloc(buflen);
    int rc = 0;
    memset(&io, 0, sizeof io);
    io.out = outbuf; io.obase = 7000; io.wbase = 512; io.org = org; io.on = on; io.maxlen = buflen / 2;
    memset(&c, 0xA7, sizeof c);
    rc = bpak_bspatch_init(&c, buf, buflen, dn, rd, 7000, wr, 512, cv[comp], &io);
    MC_CHECK(rc == 0, "init");
    for (size_t pos = 0; pos < dn && rc == 0;) {
        size_t n = chunk ? (size_t)chunk : dn;
        if (n > dn - pos) n = dn - pos;
        uint8_t *ch = malloc(n);
        memcpy(ch, d + pos, n);
        rc = bpak_bspatch_write(&c, ch, n);
        free(ch);
        pos += n;
    }
    ssize_t r = rc ? (rc < 0 ? rc : -1000) : bpak_bspatch_final(&c);
    bpak_bspatch_free(&c);
    free(buf);
    mc_trans(1);
    MC_CHECK(r < 0 || (size_t)r == io.n, "reported %zd output bytes but wrote %zu", r, io.n);
    return r;
}
/* reference: 1 = described output in ro/rn; 0 = must be refused; 2 = either (pointless origin position) */
static uint8_t ro[CAP];
static size_t rn;
static int ref(const uint8_t *d, size_t dn, const uint8_t *org, size_t on)
{
    size_t p = 0;
    __int128 op = 0;
    int loose = 1;
    rn = 0;
    while (dn - p >= 24) {
        int64_t v[3];
        for (int k = 0; k < 3; k++) {
            uint64_t x = 0;
            for (int i = 7; i >= 0; i--) x = x << 8 | d[p + 8 * k + i];
            v[k] = x >> 63 ? -(int64_t)(x & INT64_MAX) : (int64_t)x;
        }
        p += 24;
        if (v[0] < 0 || v[1] < 0) return dn == p ? 2 : 0;
        int64_t n = v[0] < (int64_t)(dn - p) ? v[0] : (int64_t)(dn - p);
        if (n) {
            if (op < 0 || op + n > (__int128)on) return 0;
            if (rn + n > CAP) return 0;
            for (int64_t i = 0; i < n; i++) ro[rn + i] = org[(size_t)op + i] + d[p + i];
        }
        rn += n; p += n; op += n;
        if (n < v[0]) return 3;
        n = v[1] < (int64_t)(dn - p) ? v[1] : (int64_t)(dn - p);
        if (rn + n > CAP) return 0;
        memcpy(ro + rn, d + p, n);
        rn += n; p += n;
        if (n < v[1]) return 3; /* truncated: error, or the part so far */
        op += v[2];
        if (op < 0 || op > (__int128)on) loose = 2;
    }
    return p == dn ? loose : 3;
}
static uint8_t O[8192];
static void put64(uint8_t *b, int64_t v, bool negzero)
{
    uint64_t x = v < 0 ? (uint64_t)0 - (uint64_t)v : (uint64_t)v;
    if (v == INT64_MIN) x = 0;
    for (int i = 0; i < 8; i++) b[i] = x >> (8 * i);
    if (v < 0 || negzero) b[7] |= 0x80;
}
static size_t hs_literals(const uint8_t *d, size_t n, uint8_t *o) /* heatshrink stream of literals only */
{
    size_t bits = 0;
    memset(o, 0, n * 9 / 8 + 2);
    for (size_t i = 0; i < n; i++) {
        o[bits / 8] |= 0x80 >> bits % 8; bits++;
        for (int k = 7; k >= 0; k--, bits++) if (d[i] >> k & 1) o[bits / 8] |= 0x80 >> bits % 8;
    }
    return (bits + 7) / 8;
}
static void judge(const uint8_t *plain, size_t pn, int comp, const uint8_t *d, size_t dn, const uint8_t *org, size_t on)
{
    static const int chunks[] = {0, 1, 23, 25}, bufs[] = {4096, 2, 64, 6};
    int want = ref(plain, pn, org, on);
    for (int k = 0; k < 4; k++) {
        ssize_t r = feed(d, dn, comp, chunks[k], bufs[k], org, on);
        mc_eval(1);
        mc_distinct(mc_hash(outbuf, r > 0 ? r : 0, r < 0 ? 1 : 2));
        if (want == 0) MC_CHECK(r < 0, "a delta that must be refused was accepted with %zd bytes (chunks of %d)", r, chunks[k]);
        if (want == 1) MC_CHECK(r >= 0, "a well-formed delta was refused: %zd (chunks of %d)", r, chunks[k]);
        if (r >= 0) MC_CHECK((size_t)r == rn && !memcmp(outbuf, ro, rn), "output of %zd bytes is not what the delta describes (%zu bytes, chunks of %d)", r, rn, chunks[k]);
    }
}
static void ctrl_blocks(void)
{
    const int64_t V[] = {0, 1, 2, 5, 100, 4095, 4096, 4097, -1, -2, -5, -100, -4096, INT64_MAX, INT64_MAX - 1, INT64_MAX - 7000, -INT64_MAX, INT64_MIN, 1ll << 31, (1ll << 31) - 1, -(1ll << 31), 1ll << 32, (1ll << 32) + 3, -(1ll << 32), (1ll << 62)};
    const int nv = sizeof V / sizeof *V;
    static uint8_t d[20000], z[24000], l[40000];
    uint8_t *org = malloc(5000);
    memcpy(org, O, 5000);
    for (int a = 0; a < nv; a++)
        for (int b = 0; b < nv; b++)
            for (int c = 0; c < nv; c++)
                for (int tail = 0; tail < 4; tail++)
                    for (int comp = 0; comp < 3; comp++) {
                        if (!mc_thorough && (comp == 2 ? (a + b + c) % 7 || tail == 1 : comp == 1 ? tail % 2 : 0)) continue;
                        if (!mc_mine()) continue;
                        mc_case("control block diff=%lld extra=%lld adjust=%lld, tail %d, %s", (long long)V[a], (long long)V[b], (long long)V[c], tail, cn[comp]);
                        size_t n = 0;
                        put64(d, V[a], V[a] == INT64_MIN); put64(d + 8, V[b], V[b] == INT64_MIN); put64(d + 16, V[c], V[c] == INT64_MIN);
                        n = 24;
                        int64_t body = (V[a] > 0 ? V[a] : 0);
                        if (body > 5000) body = 5000;
                        body += V[b] > 0 ? (V[b] > 5000 ? 5000 : V[b]) : 0;
                        if (tail == 0) body = 0;
                        if (tail == 1) body = body / 2 + 1;
                        for (int64_t i = 0; i < body; i++) d[n++] = i * 7 + 1;
                        if (tail == 3) { /* a second block reading the origin where the first one left it */
                            put64(d + n, 3, false); put64(d + n + 8, 2, false); put64(d + n + 16, V[c], false);
                            n += 24;
                            for (int i = 0; i < 5; i++) d[n++] = 0x80 + i;
                        }
                        const uint8_t *s = d;
                        size_t sn = n;
                        if (comp == 1) { sn = hs_literals(d, n, z); s = z; }
                        if (comp == 2) {
                            size_t lo = 0;
                            if (lzma_easy_buffer_encode(0, LZMA_CHECK_CRC64, NULL, d, n, l, &lo, sizeof l)) mc_die("lzma");
                            s = l; sn = lo;
                        }
                        judge(d, n, comp, s, sn, org, 5000);
                    }
    free(org);
}
/* genuine deltas */
static ssize_t dwr(off_t off, uint8_t *b, size_t n, void *u)
{
    struct io *p = u;
    memcpy(p->out + off, b, n);
    if (off + n > p->n) p->n = off + n;
    return n;
}
static uint8_t T[8192];
static size_t pairs(int i, size_t *on)
{
    memcpy(T, O, sizeof T);
    switch (i) {
    case 0: *on = 40; T[7]++; return 40;
    case 1: *on = 200; memmove(T + 60, O + 50, 140); memset(T + 50, 'q', 10); return 210;
    case 2: *on = 0; return 20;
    case 3: *on = 600; memcpy(T, O + 300, 300); memcpy(T + 300, O, 290); for (int k = 0; k < 600; k += 97) T[k] ^= 9; return 590;
    default: *on = 5000; memset(T + 1000, 0, 3000); T[4999] ^= 1; return 5000;
    }
}
static struct pu E;
static const char *alg[] = {"bspatch-no-comp", "bspatch", "bspatch-lzma"};
static char ef[300], of[300], df[300];
/* transport level: the mutated stream stored in a package; through the file API */
static void transport(const uint8_t *m, size_t mn, int comp, const uint8_t *t, size_t tn, bool trunc, bool whole)
{
    static struct bpak_package i, o, g;
    int ps;
    pu_init(&E, 1);
    pu_uuid(&E, 1);
    pu_part(&E, pu_id("front"), O + 50, 100, 0);
    uint32_t id = pu_id("p");
    pu_part_t(&E, id, m, mn, tn, (512 - tn % 512) % 512, 2);
    pu_part(&E, pu_id("rear"), O + 90, 30, 0);
    pu_transport(&E, id, "x", alg[comp]);
    pu_save(&E, ef);
    (void)ps;
    if (bpak_pkg_open(&i, ef, "rb") || bpak_pkg_open(&o, df, "wb+") || bpak_pkg_open(&g, of, "rb")) mc_fail("open");
    int rc = bpak_pkg_transport_decode(&i, &o, &g);
    bpak_pkg_close(&i); bpak_pkg_close(&o); bpak_pkg_close(&g);
    mc_trans(1); mc_eval(1);
    if (rc == 0) {
        size_t n, pt = (tn + 511) / 512 * 512;
        uint8_t *b = mc_read_file(df, &n);
        MC_CHECK(n == 4096 + 512 + pt + 512, "decode succeeded but the output file has %zu bytes instead of %zu", n, 4096 + 512 + pt + 512);
        MC_CHECK(!memcmp(b + 4096, O + 50, 100) && !memcmp(b + 4096 + 512 + pt, O + 90, 30), "decode of a corrupt part damaged other parts");
        if (trunc || whole) {
            bool same = !memcmp(b + 4096 + 512, t, tn);
            for (size_t k = tn; k < pt; k++) if (b[4096 + 512 + k]) same = false;
            MC_CHECK(same, "a %s delta was accepted with wrong content", trunc ? "truncated" : "genuine");
        }
        free(b);
    } else
        MC_CHECK(!whole, "decoding the genuine delta failed: %d", rc);
    pu_free(&E);
}
/* the control stream a compressed delta stands for: our own heatshrink decoder, liblzma in one call.
 * 0: not a compressed stream at all */
static uint8_t pl_[400000];
static bool hs_decode(const uint8_t *d, size_t dn, size_t *pn)
{
    size_t bits = dn * 8, b = 0, n = 0;
#define TAKE(k) ({ unsigned v_ = 0; for (int q_ = 0; q_ < (k); q_++, b++) v_ = v_ << 1 | (d[b / 8] >> (7 - b % 8) & 1); v_; })
    while (b < bits) {
        if (TAKE(1)) {
            if (bits - b < 8) break;
            pl_[n++] = TAKE(8);
        } else {
            if (bits - b < 15) break;
            unsigned back = TAKE(8) + 1, len = TAKE(7) + 1;
            if (n + len + 200 > sizeof pl_) mc_die("too long");
            for (unsigned i = 0; i < len; i++, n++) pl_[n] = n >= back ? pl_[n - back] : 0;
        }
    }
    *pn = n;
    return true;
}
static bool xz_decode(const uint8_t *d, size_t dn, size_t *pn)
{
    lzma_stream s = LZMA_STREAM_INIT;
    if (lzma_stream_decoder(&s, UINT64_MAX, LZMA_CONCATENATED) != LZMA_OK) mc_die("lzma");
    s.next_in = d; s.avail_in = dn; s.next_out = pl_; s.avail_out = sizeof pl_;
    lzma_ret r = lzma_code(&s, LZMA_FINISH);
    *pn = sizeof pl_ - s.avail_out;
    lzma_end(&s);
    return r == LZMA_STREAM_END;
}
static void corruptions(void)
{
    static uint8_t d[20000], m[20100], pt[9000];
    strcpy(ef, mc_path("e")); strcpy(of, mc_path("o")); strcpy(df, mc_path("d"));
    for (int pi = 0; pi < (mc_thorough ? 5 : 4); pi++)
        for (int comp = 0; comp < 3; comp++) {
            size_t on, tn = pairs(pi, &on), pl = (tn + 511) / 512 * 512;
            struct bpak_bsdiff_context c;
            struct io w = {.out = d};
            uint8_t *org = malloc(on ? on : 1);
            memcpy(org, O, on);
            memset(pt, 0, sizeof pt);
            memcpy(pt, T, tn);
            /* the transport layer encodes the padded part */
            if (bpak_bsdiff_init(&c, org, on, pt, pl, dwr, 0, cv[comp], &w) || bpak_bsdiff(&c) < 0) mc_fail("bsdiff");
            bpak_bsdiff_free(&c);
            size_t dn = w.n;
            struct pu P;
            pu_init(&P, 1); pu_uuid(&P, 1); pu_part(&P, pu_id("p"), org, on, 0); pu_rehash(&P); pu_save(&P, of); pu_free(&P);
            /* kind 0: truncation, 1: extension, 2: bit flip, 3: byte value, 4: genuine */
            for (int kind = 0; kind < 5; kind++) {
                size_t lim = kind == 0 ? dn : kind == 1 ? 80 : kind == 2 ? dn * 8 : kind == 3 ? dn * 4 : 1;
                for (size_t x = 0; x < lim; x++) {
                    if (!mc_thorough && dn > 700 && kind >= 2 && kind < 4 && x % 5) continue;
                    if (!mc_mine()) continue;
                    static const uint8_t bv[] = {0, 0xff, 0x80, 0x7f};
                    mc_case("pair %d, %s, %s %zu of delta (%zu bytes)", pi, cn[comp], ((const char *[]){"truncated to", "extended by", "bit flip", "byte", "genuine"})[kind], x, dn);
                    size_t mn = dn;
                    memcpy(m, d, dn);
                    if (kind == 0) mn = x;
                    if (kind == 1) { memset(m + dn, x & 1 ? 0xff : 0, 40); mn = dn + x / 2 + 1; }
                    if (kind == 2) m[x / 8] ^= 1 << x % 8;
                    if (kind == 3) { if (m[x / 4] == bv[x % 4]) continue; m[x / 4] = bv[x % 4]; }
                    if (comp == 0) judge(m, mn, 0, m, mn, org, on);
                    else {
                        size_t q;
                        bool ok = comp == 1 ? hs_decode(m, mn, &q) : xz_decode(m, mn, &q);
                        if (ok) judge(pl_, q, comp, m, mn, org, on);
                        for (int k = 0; k < 3; k++) {
                            static const int ch[] = {0, 1, 13}, bl[] = {4096, 2, 64};
                            ssize_t r = feed(m, mn, comp, ch[k], bl[k], org, on);
                            mc_eval(1);
                            mc_distinct(mc_hash(outbuf, r > 0 ? r : 0, r < 0));
                            if (!ok) MC_CHECK(r < 0, "accepted although the compressed stream is damaged");
                            if (kind == 0) MC_CHECK(r < 0 || r != (ssize_t)pl || !memcmp(outbuf, pt, pl), "truncated delta accepted with the full size and wrong bytes");
                            if (kind == 4) MC_CHECK(r == (ssize_t)pl && !memcmp(outbuf, pt, pl), "genuine delta fails");
                        }
                    }
                    if (mc_thorough || kind != 3) transport(m, mn, comp, T, tn, kind == 0, kind == 4);
                }
            }
            free(org);
        }
}
int mc_run(void)
{
    pu_fill(O, sizeof O, 9);
    for (size_t i = 0; i < sizeof O; i += 2) O[i] = i / 64;
    ctrl_blocks();
    corruptions();
    return 0;
}
