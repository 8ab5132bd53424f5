/* C11: heatshrink round trip and decoder robustness. */
#include "mc.h"
#include "pu.h"
#include <bpak/heatshrink_decoder.h>
#include "heatshrink_encoder.h"

#define WIN 8
#define LOOK 7
static uint8_t *obuf; /* malloc'ed exactly */
struct buf { uint8_t d[40000]; size_t n; };
static void app(struct buf *b, const uint8_t *p, size_t n) { if (b->n + n > sizeof b->d) mc_fail("runaway output"); memcpy(b->d + b->n, p, n); b->n += n; }

static void encode(const uint8_t *in, size_t n, size_t first, size_t chunk, size_t osz, struct buf *out)
{
    static heatshrink_encoder e;
    memset(&e, 0xA9, sizeof e);
    heatshrink_encoder_reset(&e);
    size_t o = 0, g;
    long steps = 0;
    out->n = 0;
    obuf = malloc(osz);
    while (o < n) {
        size_t k = o == 0 && first ? first : chunk, got;
        if (k > n - o) k = n - o;
        uint8_t *c = malloc(k);
        memcpy(c, in + o, k);
        size_t c0 = 0;
        while (c0 < k) {
            HSE_sink_res r = heatshrink_encoder_sink(&e, c + c0, k - c0, &got);
            MC_CHECK(r == HSER_SINK_OK && got <= k - c0, "encoder sink returned %d, took %zu of %zu", r, got, k - c0);
            c0 += got;
            HSE_poll_res pr;
            do {
                pr = heatshrink_encoder_poll(&e, obuf, osz, &g);
                MC_CHECK(pr >= 0 && g <= osz, "encoder poll returned %d, %zu bytes", pr, g);
                app(out, obuf, g);
                if (++steps > 2000000) mc_fail("encoder does not make progress");
            } while (pr == HSER_POLL_MORE);
        }
        free(c);
        o += k;
    }
    HSE_finish_res fr;
    while ((fr = heatshrink_encoder_finish(&e)) == HSER_FINISH_MORE) {
        HSE_poll_res pr;
        do {
            pr = heatshrink_encoder_poll(&e, obuf, osz, &g);
            MC_CHECK(pr >= 0 && g <= osz, "encoder poll returned %d", pr);
            app(out, obuf, g);
            if (++steps > 2000000) mc_fail("encoder finish does not make progress");
        } while (pr == HSER_POLL_MORE);
    }
    MC_CHECK(fr == HSER_FINISH_DONE, "encoder finish returned %d", fr);
    free(obuf);
    mc_trans(1);
}
static void decode(const uint8_t *in, size_t n, size_t first, size_t chunk, size_t osz, struct buf *out)
{
    static heatshrink_decoder dd;
    heatshrink_decoder *d = &dd;
    memset(d, 0xA9, sizeof *d);
    heatshrink_decoder_reset(d);
    size_t o = 0, g;
    long steps = 0;
    out->n = 0;
    obuf = malloc(osz);
    while (o < n) {
        size_t k = o == 0 && first ? first : chunk, got;
        if (k > n - o) k = n - o;
        uint8_t *c = malloc(k);
        memcpy(c, in + o, k);
        size_t c0 = 0;
        while (c0 < k) {
            HSD_sink_res r = heatshrink_decoder_sink(d, c + c0, k - c0, &got);
            MC_CHECK(r >= 0 && got <= k - c0, "decoder sink returned %d, took %zu", r, got);
            c0 += got;
            HSD_poll_res pr;
            do {
                pr = heatshrink_decoder_poll(d, obuf, osz, &g);
                MC_CHECK(pr >= 0 && g <= osz, "decoder poll returned %d, %zu bytes", pr, g);
                app(out, obuf, g);
                if (++steps > 2000000) mc_fail("decoder does not make progress");
            } while (pr == HSDR_POLL_MORE);
        }
        free(c);
        o += k;
    }
    for (int i = 0; i < 4 && heatshrink_decoder_finish(d) == HSDR_FINISH_MORE; i++) {
        HSD_poll_res pr;
        do {
            pr = heatshrink_decoder_poll(d, obuf, osz, &g);
            MC_CHECK(pr >= 0, "decoder poll returned %d", pr);
            app(out, obuf, g);
        } while (pr == HSDR_POLL_MORE);
    }
    free(obuf);
    mc_trans(1);
}
/* reference decoder: bit stream of literals and back references into a zeroed window */
static void ref(const uint8_t *in, size_t n, struct buf *out)
{
    size_t bits = n * 8, p = 0;
    out->n = 0;
#define GET(v, k) do { (v) = 0; for (int i_ = 0; i_ < (k); i_++, p++) (v) = (v) << 1 | (in[p / 8] >> (7 - p % 8) & 1); } while (0)
    while (bits - p >= 1) {
        unsigned t, v, c;
        GET(t, 1);
        if (t) {
            if (bits - p < 8) return;
            GET(v, 8);
            uint8_t b = v;
            app(out, &b, 1);
        } else {
            if (bits - p < WIN) return;
            GET(v, WIN);
            if (bits - p < LOOK) return;
            GET(c, LOOK);
            for (unsigned i = 0; i <= c; i++) {
                uint8_t b = out->n > v ? out->d[out->n - v - 1] : 0;
                app(out, &b, 1);
            }
        }
    }
}
static struct buf base, e2, dd, rr;
static void same(const struct buf *a, const uint8_t *d, size_t n, const char *what, size_t x, size_t y)
{
    MC_CHECK(a->n == n && !memcmp(a->d, d, n), "%s (parameters %zu, %zu): %zu bytes, expected %zu", what, x, y, a->n, n);
}
static void round1(const uint8_t *in, size_t n, int level)
{
    static const size_t os[] = {1024, 1, 2, 3, 17}, ch[] = {1, 2, 3, 7, 255, 256, 257};
    encode(in, n, 0, 1 << 20, 1024, &base);
    ref(base.d, base.n, &rr);
    MC_CHECK(rr.n >= n && rr.n <= n + 0 && !memcmp(rr.d, in, n), "the compressed form means %zu bytes, input has %zu", rr.n, n);
    MC_CHECK(base.n <= n * 9 / 8 + 1, "compressed to %zu bytes, more than literals only", base.n);
    mc_distinct(mc_hash(base.d, base.n, n));
    for (int i = 0; i < 5; i++) {
        if (level > 1 && i > 1) break;
        encode(in, n, 0, 1 << 20, os[i], &e2); same(&e2, base.d, base.n, "compressed bytes depend on the output buffer", os[i], 0);
        decode(base.d, base.n, 0, 1 << 20, os[i], &dd); same(&dd, in, n, "decompression with output buffer", os[i], 0);
        decode(base.d, base.n, 0, 1, os[i], &dd); same(&dd, in, n, "bytewise decompression with output buffer", os[i], 0);
        mc_eval(3);
    }
    for (int i = 0; i < 7; i++) {
        if (level > 1 && i % 3) continue;
        encode(in, n, 0, ch[i], 64, &e2); same(&e2, base.d, base.n, "compressed bytes depend on the input chunks", ch[i], 0);
        decode(base.d, base.n, 0, ch[i], 64, &dd); same(&dd, in, n, "decompression in chunks", ch[i], 0);
        mc_eval(2);
    }
    if (level == 0) {
        for (size_t k = 1; k < n; k++) { encode(in, n, k, 1 << 20, 1 + k % 5, &e2); same(&e2, base.d, base.n, "compressed bytes depend on the split", k, 1 + k % 5); mc_eval(1); }
        for (size_t k = 1; k < base.n; k++) { decode(base.d, base.n, k, 1 << 20, 1 + k % 5, &dd); same(&dd, in, n, "decompression split", k, 1 + k % 5); mc_eval(1); }
    }
}
static void arbitrary(const uint8_t *in, size_t n, bool splits)
{
    static const size_t os[] = {512, 1, 3};
    ref(in, n, &rr);
    for (int i = 0; i < 3; i++) {
        decode(in, n, 0, i == 2 ? 1 : 1 << 20, os[i], &dd);
        same(&dd, rr.d, rr.n, "decoding arbitrary bytes", os[i], 0);
        mc_eval(1);
    }
    if (splits) for (size_t k = 1; k < n; k++) { decode(in, n, k, 1 << 20, 2, &dd); same(&dd, rr.d, rr.n, "decoding arbitrary bytes split", k, 0); mc_eval(1); }
}
int mc_run(void)
{
    uint8_t in[4096];
    for (int al = 2; al <= 4; al++) {
        int maxn = al == 2 ? (mc_thorough ? 16 : 12) : al == 3 ? (mc_thorough ? 10 : 7) : (mc_thorough ? 8 : 5);
        for (int n = 0; n <= maxn; n++) {
            long tot = 1;
            for (int i = 0; i < n; i++) tot *= al;
            for (long x = 0; x < tot; x++) {
                if (!mc_mine()) continue;
                long y = x;
                for (int i = 0; i < n; i++, y /= al) in[i] = (uint8_t[]){0, 'a', 0xff, 0x55}[y % al];
                mc_case("alphabet %d, length %d, string %ld", al, n, x);
                round1(in, n, 0);
            }
        }
    }
    /* periodic and shifted content around the window (256), look-ahead (128) and buffer (512) sizes */
    for (int per = 1; per <= 300; per += per < 20 ? 1 : per < 120 ? 9 : per < 136 ? 1 : per < 250 ? 13 : 1)
        for (int n = 0; n <= 1100; n += (n > 100 && n < 140) || (n > 245 && n < 265) || (n > 375 && n < 390) || (n > 500 && n < 520) || n > 1080 ? 1 : mc_thorough ? 3 : 29) {
            if (!mc_mine()) continue;
            mc_case("period %d, length %d", per, n);
            pu_fill(in, per, per);
            for (int i = per; i < n; i++) in[i] = in[i - per];
            round1(in, n, mc_thorough ? 1 : 2);
        }
    for (int gap = 0; gap < 400; gap += mc_thorough ? 1 : 7)
        for (int len = 1; len <= 140; len += len > 124 && len < 132 ? 1 : mc_thorough ? 2 : 13) {
            if (!mc_mine()) continue;
            mc_case("a run of %d bytes repeated after %d unrelated bytes", len, gap);
            pu_fill(in, 1000, 3);
            memcpy(in + len + gap, in, len);
            round1(in, 2 * len + gap + 3, mc_thorough ? 1 : 2);
        }
    /* all small, plus structured, arbitrary streams */
    for (int a = 0; a < 256; a++) {
        if (!mc_mine()) continue;
        in[0] = a;
        mc_case("arbitrary streams starting with %02x", a);
        arbitrary(in, 1, false);
        for (int b = 0; b < 256; b++) {
            in[1] = b;
            arbitrary(in, 2, true);
            for (int c = b % (mc_thorough ? 1 : 32); c < 256; c += mc_thorough ? 1 : 32) { in[2] = c; arbitrary(in, 3, false); }
        }
    }
    /* sequences of tokens: literal / back reference with boundary distances and counts */
    static const int dist[] = {0, 1, 2, 126, 127, 128, 254, 255}, cnt[] = {0, 1, 2, 63, 126, 127};
    long combos = 8 * 6 + 1, len = mc_thorough ? 3 : 2;
    for (int l = 1; l <= len; l++) {
        long tot = 1;
        for (int i = 0; i < l; i++) tot *= combos;
        for (long x = 0; x < tot; x++) {
            if (!mc_mine()) continue;
            uint8_t s[300] = {0};
            size_t p = 0;
            long y = x;
            mc_case("token sequence %ld of length %d", x, l);
#define PUT(v, k) for (int i_ = (k) - 1; i_ >= 0; i_--, p++) if ((v) >> i_ & 1) s[p / 8] |= 0x80 >> p % 8
            for (int lit = 0; lit < 3; lit++) { PUT(1, 1); PUT('A' + lit, 8); }
            for (int i = 0; i < l; i++, y /= combos) {
                int t = y % combos;
                if (t == 48) { PUT(1, 1); PUT(0xC3, 8); }
                else { p++; PUT(dist[t / 6], WIN); PUT(cnt[t % 6], LOOK); }
            }
            arbitrary(s, (p + 7) / 8, true);
            for (size_t cut = 1; cut <= (p + 7) / 8; cut++) arbitrary(s, cut, false);
        }
    }
    for (int f = 0; f < 4; f++)
        for (int n = 1; n < 300; n++) {
            if (!mc_mine()) continue;
            mc_case("fill %d of %d bytes", f, n);
            if (f == 3) pu_fill(in, n, n); else memset(in, f == 0 ? 0 : f == 1 ? 0xff : 0x7f, n);
            arbitrary(in, n, n < 40);
        }
    return 0;
}
