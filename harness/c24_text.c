/* C24: text rendering with every buffer size. */
#include "mc.h"
#include "pu.h"
#include <bpak/utils.h>
#include <bpak/id.h>
#include <bpak/pkg.h>

static uint8_t R[600];
static const char HX[] = "0123456789abcdef";
static void hexs(const uint8_t *d, size_t n, char *o)
{
    for (size_t i = 0; i < n; i++) { o[2 * i] = HX[d[i] >> 4]; o[2 * i + 1] = HX[d[i] & 15]; }
    o[2 * n] = 0;
}
/* out of exactly `size` bytes; want NULL: must be an error */
static void judge(const char *want, int rc, const char *buf, size_t size)
{
    mc_eval(1);
    bool fits = want && strlen(want) < size;
    mc_distinct(mc_hash(want ? want : "", want ? strlen(want) : 0, rc));
    if (fits) {
        MC_CHECK(rc == BPAK_OK, "returned %d although '%s' fits in %zu bytes", rc, want, size);
        MC_CHECK(!strcmp(buf, want), "rendered '%s', expected '%s'", buf, want);
    } else {
        MC_CHECK(rc != BPAK_OK, "returned success with a %zu byte buffer%s", size, want ? "" : " for an entry that is too short");
    }
}
static struct bpak_header H;
static const struct { const char *name; int need; } T[] = {{"bpak-key-id", 4}, {"bpak-key-store", 4}, {"bpak-package", 16}, {"bpak-transport", 8}, {"merkle-salt", 32}, {"merkle-root-hash", 32}, {"pb-load-addr", 8}, {"bpak-version", 0}, {"keystore-provider-id", 4}, {"unknown-thing", 0}};
static const char *expect(int t, const uint8_t *d, size_t n, char *o)
{
    uint32_t a, b;
    uint64_t q;
    if ((int)n < T[t].need) return NULL;
    switch (t) {
    case 0: case 1: memcpy(&a, d, 4); sprintf(o, "%x", a); break;
    case 2: for (int i = 0, k = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) o[k++] = '-'; o[k++] = HX[d[i] >> 4]; o[k++] = HX[d[i] & 15]; o[k] = 0; } break;
    case 3: memcpy(&a, d, 4); memcpy(&b, d + 4, 4); sprintf(o, "Encode: %08x, Decode: %08x", a, b); break;
    case 4: case 5: hexs(d, 32, o); break;
    case 6: memcpy(&q, d, 8); sprintf(o, "Entry: 0x%08llX", (unsigned long long)q); break;
    case 7: { size_t k = 0; while (k < n && d[k]) { o[k] = d[k]; k++; } o[k] = 0; } break;
    case 8: memcpy(&a, d, 4); sprintf(o, "0x%x", a); break;
    default: *o = 0;
    }
    return o;
}
int mc_run(void)
{
    static char want[2200];
    pu_fill(R, sizeof R, 2);
    for (size_t i = 0; i < 600; i++) if (!R[i]) R[i] = 'z';
    for (size_t n = 0; n <= 70; n++)
        for (size_t b = 0; b <= 146; b++) {
            if (!mc_mine()) continue;
            mc_case("hex of %zu bytes into %zu", n, b);
            uint8_t *d = malloc(n ? n : 1);
            char *o = malloc(b ? b : 1), *op = b ? o : o + 1;
            memcpy(d, R, n);
            if (b) memset(o, 'Q', b);
            int rc = bpak_bin2hex(n ? d : d + 1, n, op, b);
            hexs(R, n, want);
            judge(want, rc, op, b);
            free(o); free(d);
        }
    for (int v = 0; v < 256; v++) {
        if (!mc_mine()) continue;
        char o[3]; uint8_t d = v;
        mc_case("hex of %02x", v);
        hexs(&d, 1, want);
        judge(want, bpak_bin2hex(&d, 1, o, 3), o, 3);
    }
    for (size_t b = 0; b <= 60; b++)
        for (int k = 0; k < 40; k++) {
            if (!mc_mine()) continue;
            mc_case("uuid %d into %zu bytes", k, b);
            uint8_t *d = malloc(16);
            char *o = malloc(b ? b : 1), *op = b ? o : o + 1;
            for (int i = 0; i < 16; i++) d[i] = k < 16 ? (i == k ? 0xFE : 0x01) : k < 32 ? (i == k - 16 ? 0x0A : 0xA0) : R[k * 3 + i];
            int rc = bpak_uuid_to_string(d, op, b);
            judge(expect(2, d, 16, want), rc, op, b);
            free(o); free(d);
        }
    /* metadata entries of every kind, entry size and buffer size; placed at three offsets including the end of the area */
    for (int t = 0; t < 10; t++)
        for (int es = 0; es <= (t == 7 ? 140 : 40); es++)
            for (int b = 0; b <= (t == 7 ? 145 : 80); b++) {
                if (!mc_thorough && es > T[t].need + 3 && es < 36 && es % 5) continue;
                if (!mc_thorough && t == 7 && es > 12 && es != b && es + 1 != b && es != b + 1 && b != 128) continue;
                if (!mc_mine()) continue;
                for (int pos = 0; pos < 3; pos++)
                    for (int pat = 0; pat < 4; pat++) {
                        char first[200]; int frc = 0;
                        for (int bg = 0; bg < 2; bg++) {
                            mc_case("%s entry of %d bytes at %s, pattern %d, buffer of %d bytes", T[t].name, es, pos == 0 ? "0" : pos == 1 ? "the middle" : "the end", pat, b);
                            memset(&H, bg ? 0x41 : 0, sizeof H);
                            int off = pos == 0 ? 0 : pos == 1 ? 640 : 1920 - es;
                            H.meta[3] = (struct bpak_meta_header){.id = pu_id(T[t].name), .size = es, .offset = off};
                            uint8_t *d = H.metadata + off;
                            for (int i = 0; i < es; i++) d[i] = pat == 0 ? R[i] : pat == 1 ? 0xff : pat == 2 ? (i % 3 ? 'x' : '1') : i == es - 1 ? 0 : 'v';
                            char *o = malloc(b ? b : 1), *op = b ? o : o + 1;
                            if (b) memset(o, 'Q', b);
                            int rc = bpak_meta_to_string(&H, &H.meta[3], op, b);
                            mc_trans(1);
                            judge(expect(t, d, es, want), rc, op, b);
                            MC_CHECK(b == 0 || memchr(op, 0, b), "the text is not terminated within %d bytes", b);
                            if (!bg) { frc = rc; if (b) strcpy(first, op); }
                            else MC_CHECK(rc == frc && (!b || rc || !strcmp(first, op)), "the text depends on bytes outside the entry");
                            free(o);
                        }
                    }
            }
    /* every value of every byte, the others all zero, one or set */
    for (int t = 0; t < 10; t++)
        for (int i = 0; i < (T[t].need ? T[t].need : 6); i++)
            for (int bg = 0; bg < 4; bg++) {
                if (!mc_mine()) continue;
                mc_case("%s entry, every value of byte %d, pattern %d", T[t].name, i, bg);
                for (int v = 0; v < 256; v++) {
                    char o[100];
                    int es = T[t].need ? T[t].need : 6;
                    memset(&H, 0, sizeof H);
                    H.meta[3] = (struct bpak_meta_header){.id = pu_id(T[t].name), .size = es, .offset = 64};
                    uint8_t *d = H.metadata + 64;
                    memset(d, bg == 0 ? 0 : bg == 1 ? 0xff : bg == 2 ? '1' : 0x80, es);
                    d[i] = v;
                    memset(o, 'Q', sizeof o);
                    int rc = bpak_meta_to_string(&H, &H.meta[3], o, sizeof o);
                    mc_trans(1);
                    judge(expect(t, d, es, want), rc, o, sizeof o);
                }
            }
    for (int c = -600; c <= 600; c++) {
        if (!mc_mine()) continue;
        mc_case("names for code %d", c);
        const char *s = bpak_error_string(c);
        MC_CHECK(s && strlen(s) < 100, "error string");
        s = bpak_hash_kind((uint8_t)c); MC_CHECK(s && strlen(s) < 40, "hash kind name");
        s = bpak_signature_kind((uint8_t)c); MC_CHECK(s && strlen(s) < 40, "signature kind name");
        if (c >= 0 && c < 256) {
            static const char *hk[] = {"Unknown", "sha256", "sha384", "sha512"}, *sk[] = {"Unknown", "rsa4096", "prime256v1", "secp384r1", "secp521r1"};
            MC_CHECK(!strcmp(bpak_hash_kind(c), c < 4 ? hk[c] : "Unknown"), "hash kind %d is '%s'", c, bpak_hash_kind(c));
            MC_CHECK(!strcmp(bpak_signature_kind(c), c < 5 ? sk[c] : "Unknown"), "signature kind %d is '%s'", c, bpak_signature_kind(c));
        }
        mc_eval(1);
    }
    /* the tool's listing: the same texts, for packages with every kind of entry, size and hash */
    static char f[300], o[300];
    strcpy(f, mc_path("p.bpak")); strcpy(o, mc_path("out"));
    for (int t = 0; t < 10; t++)
        for (int es = T[t].need ? T[t].need - 1 : 0; es <= (t == 7 ? 200 : T[t].need + 1); es += t == 7 && es > 8 && es < 120 ? 7 : 1)
            for (int hk = 1; hk <= 3; hk++)
                for (int ref = 0; ref < 2; ref++) {
                    if (!mc_thorough && t == 7 && hk != 1 + es % 3) continue;
                    if (!mc_mine()) continue;
                    mc_case("show: %s entry of %d bytes, %s, %s", T[t].name, es, bpak_hash_kind(hk), ref ? "with part reference" : "package level");
                    struct pu P;
                    char line[2600];
                    uint8_t d[256];
                    size_t n;
                    pu_init(&P, hk);
                    P.h.signature_kind = 1 + es % 4; P.h.key_id = 0xa1; P.h.keystore_id = 0xdeadbeef;
                    pu_part(&P, pu_id("kernel"), R, 300, ref ? 1 : 0);
                    for (int i = 0; i < es; i++) d[i] = t == 7 ? '0' + i % 70 : R[i];
                    if (t == 7 && es > 1 && ref) d[es - 1] = 0;
                    if (es) pu_meta(&P, pu_id(T[t].name), ref ? pu_id("kernel") : 0, d, es);
                    pu_meta(&P, pu_id("keystore-provider-id"), 77, "\x01\x02\x03\x04", 4); /* must not inherit the previous text */
                    pu_rehash(&P);
                    pu_save(&P, f);
                    int rc = tool(o, "show", f, NULL);
                    MC_CHECK(rc == 0, "show returned %d", rc);
                    char *b = (char *)mc_read_file(o, &n);
                    b[n] = 0;
                    static const char *sk[] = {"", "rsa4096", "prime256v1", "secp384r1", "secp521r1"};
                    snprintf(line, sizeof line, "BPAK File: %s\n\nHash:        %s\nSignature:   %s\nKey ID:      000000a1\nKeystore ID: deadbeef\n", f, bpak_hash_kind(hk), sk[1 + es % 4]);
                    MC_CHECK(!strncmp(b, line, strlen(line)), "heading is wrong: %.300s", b);
                    const char *w = expect(t, d, es, want);
                    if (es) {
                        char r2[16] = "        ";
                        if (ref) sprintf(r2, "%08x", pu_id("kernel"));
                        bool named = t >= 2 && t <= 8;
                        if (w && strlen(w) < 128) snprintf(line, sizeof line, "\n    %08x   %-3d    %-20s %s   %s\n", pu_id(T[t].name), es, named ? T[t].name : "", r2, w);
                        else snprintf(line, sizeof line, "\n    %08x   %-3d    %-20s %s   ", pu_id(T[t].name), es, named ? T[t].name : "", r2);
                        MC_CHECK(strstr(b, line), "no line '%s' in: %.900s", line, b);
                    }
                    snprintf(line, sizeof line, "\n    %08x   4      keystore-provider-id 0000004d   0x4030201\n", pu_id("keystore-provider-id"));
                    MC_CHECK(strstr(b, line), "no line '%s' in: %.900s", line, b);
                    uint8_t dg[64];
                    size_t dl = pu_header_digest(&P.h, dg);
                    hexs(dg, dl, want);
                    snprintf(line, sizeof line, "\nHeader hash:  %s\n", want);
                    MC_CHECK(strstr(b, line), "header hash line missing or wrong, expected %s in: ...%.600s", want, n > 600 ? b + n - 600 : b);
                    hexs(P.h.payload_hash, dl, want);
                    snprintf(line, sizeof line, "\nPayload hash: %s\n", want);
                    MC_CHECK(strstr(b, line), "payload hash line missing or wrong");
                    MC_CHECK(!strstr(b, "Warning"), "warning for a consistent package");
                    free(b);
                    mc_eval(1);
                    pu_free(&P);
                }
    return 0;
}
