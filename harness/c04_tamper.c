/* C04: every modification of signed content is rejected. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/crypto.h>
#include <bpak/verify.h>
#include <unistd.h>
#include <fcntl.h>

static const char *kn[] = {"p256", "p384", "p521", "rsa4096"};
static struct bpak_key *pub[8];

static const char *key(int k, const char *suf)
{
    char b[64];
    snprintf(b, 64, "%s-%c%s", kn[k & 3], k >= 4 ? 'b' : 'a', suf);
    return pu_key(b);
}
static int vfy(const char *path, struct bpak_key *k)
{
    static struct bpak_package pkg;
    int rc = bpak_pkg_open(&pkg, path, "rb");
    mc_trans(1);
    if (rc) return rc;
    rc = bpak_pkg_verify(&pkg, k);
    bpak_pkg_close(&pkg);
    return rc;
}
static void mkpkg(struct pu *p, int hk, int variant)
{
    uint8_t b[2048];
    pu_init(p, hk);
    p->h.key_id = pu_id("key");
    p->h.keystore_id = pu_id("ks");
    pu_uuid(p, 1);
    pu_meta(p, pu_id("bpak-version"), 0, "v1.2.3\0", 7);
    pu_meta(p, pu_id("pb-load-addr"), pu_id("a"), "\1\2\3\4\5\6\7\0", 8);
    pu_fill(b, sizeof b, variant + 1);
    pu_part(p, pu_id("a"), b, 700, 0);
    pu_part(p, pu_id("b"), b + 700, 513, 1);         /* excluded */
    pu_part_t(p, pu_id("c"), b + 100, 333, 900, 124, 0); /* encoded for transport */
    pu_part(p, pu_id("d"), b + 3, variant ? 512 : 5, 0);
    pu_rehash(p);
}
static void must(bool ok, int rc, const char *what)
{
    mc_eval(1);
    mc_distinct(mc_hash(&rc, 4, ok));
    MC_CHECK((rc == 0) == ok, "%s: verify returned %d (%s)", what, rc, ok ? "should succeed" : "should be rejected");
}
static void flips(struct pu *p, const char *path, struct bpak_key *k, int k_id, int hk, int bits, bool use_tool)
{
    size_t total = 4096 + p->len;
    size_t sig0 = offsetof(struct bpak_header, signature);
    uint8_t *img = malloc(total);
    memcpy(img, &p->h, 4096);
    memcpy(img + 4096, p->data, p->len);
    size_t ex0 = pu_offset(&p->h, 1), ex1 = pu_offset(&p->h, 2);
    for (size_t o = 0; o < total; o += 1) {
        if (o % 64 == 0 && !mc_mine()) { o += 63; continue; }
        bool is_sig = o >= sig0 && o < 4096;
        if (is_sig && o < 4094 && o >= sig0 + p->h.signature_sz) continue; /* unused tail of the field */
        bool excluded = o >= ex0 && o < ex1;
        if (bits == 0 && o % 61 && !(o < 64) && !(o >= sig0 - 8 && o < sig0 + 8) && !(o >= 4090 && o < 4100)) continue;
        for (int b = 0; b < (bits ? bits : 1); b++) {
            uint8_t v = img[o] ^ (bits == 8 ? 1 << b : 1 << ((o + b) % 8));
            mc_case("%s/%s: key %s hash %d flip byte %zu to 0x%02x", use_tool ? "tool" : "lib", "flip", kn[k_id & 3], hk, o, v);
            int fd = open(path, O_WRONLY);
            if (fd < 0 || pwrite(fd, &v, 1, o) != 1) mc_die("pwrite");
            int rc = use_tool ? tool("", "verify", path, "--key", key(k_id, ".pub.pem"), NULL) : vfy(path, k);
            must(excluded, rc, "after flipping one bit");
            if (pwrite(fd, &img[o], 1, o) != 1) mc_die("pwrite");
            close(fd);
            if (use_tool && o < 8) { pu_save(p, path); }
        }
    }
    free(img);
    must(true, vfy(path, k), "after undoing all flips");
}
/* every pair of contents out of 600: the payload hash of one never passes for the other */
static const uint8_t *mem;
static ssize_t mrd(off_t o, uint8_t *b, size_t n, void *u) { (void)u; memcpy(b, mem + o, n); return n; }
static void pairs(void)
{
    enum { N = 600 };
    static uint8_t d[N][512];
    static uint8_t hs[N][64];
    for (int hk = 1; hk <= 3; hk++) {
        struct bpak_header h;
        bpak_init_header(&h);
        h.hash_kind = hk;
        h.parts[0].id = 77; h.parts[0].size = 512; h.parts[0].offset = 4096;
        for (int i = 0; i < N; i++) {
            for (int k = 0; k < 512; k++) d[i][k] = i * 31 + k;
            memcpy(d[i], &i, 4);
            memset(hs[i], 0, 64);
            pu_digest(hk, d[i], 512, hs[i]);
        }
        for (int i = 0; i < N; i++) {
            if (!mc_mine()) continue;
            memcpy(h.payload_hash, hs[i], 64);
            for (int j = 0; j < N; j++) {
                mc_case("hash kind %d: hash of contents %d, contents %d", hk, i, j);
                mem = d[j];
                int rc = bpak_verify_payload(&h, mrd, 0, NULL);
                mc_trans(1); mc_eval(1);
                MC_CHECK((rc == 0) == (i == j), i == j ? "the right contents are rejected" : "other contents pass for the hashed ones");
            }
        }
    }
}
int mc_run(void)
{
    for (int k = 0; k < 8; k++)
        if (bpak_crypto_load_public_key(key(k, ".pub.pem"), &pub[k])) mc_fail("cannot load public key %d", k);
    const char *path = mc_path("t.bpak");
    struct pu p, q;
    pairs();
    memset(&q, 0, sizeof q);
    for (int k = 0; k < 4; k++)
        for (int hk = 1; hk <= 3; hk++) {
            mkpkg(&p, hk, hk & 1);
            pu_sign(&p, key(k, ".pem"));
            pu_save(&p, path);
            mc_case("unmodified: key %s hash %d", kn[k], hk);
            must(true, vfy(path, pub[k]), "unmodified package, independent signature");
            mc_state(mc_hash(&p.h, 4096 - 514, 7));
            /* full bit flips for RSA/sha512, one bit per byte for RSA and P-256/sha256, a stride otherwise */
            int bits = mc_thorough ? 8 : k == 3 ? (hk == 3 ? 8 : 1) : k == 0 && hk == 1 ? 1 : 0;
            flips(&p, path, pub[k], k, hk, bits, false);
            /* digest level: every bit, every hash kind */
            uint8_t d0[64], d1[64];
            size_t n0 = 64, n1;
            struct bpak_header h = p.h;
            bpak_verify_compute_header_hash(&h, d0, &n0);
            for (size_t o = 0; o < offsetof(struct bpak_header, signature); o++) {
                if (o % 64 == 0 && !mc_mine()) { o += 63; continue; }
                if (o == offsetof(struct bpak_header, hash_kind)) continue;
                for (int b = 0; b < 8; b++) {
                    mc_case("digest: hash %d flip bit %d of byte %zu", hk, b, o);
                    ((uint8_t *)&h)[o] ^= 1 << b;
                    n1 = 64;
                    int rc = bpak_verify_compute_header_hash(&h, d1, &n1);
                    mc_trans(1); mc_eval(1);
                    MC_CHECK(rc == 0 && n1 == n0 && memcmp(d0, d1, n0), "header digest does not depend on bit %d of byte %zu", b, o);
                    ((uint8_t *)&h)[o] ^= 1 << b;
                }
            }
            /* every truncation of the file */
            for (size_t l = 0; l < 4096 + p.len; l++) {
                if (l % 64 == 0 && !mc_mine()) { l += 63; continue; }
                if (!mc_thorough && (k != 3 || hk != 1) && l % 512 && (l + 1) % 512) continue;
                mc_case("truncate: key %s hash %d to %zu bytes", kn[k], hk, l);
                pu_save(&p, path);
                if (truncate(path, l)) mc_die("truncate");
                must(false, vfy(path, pub[k]), "truncated package");
            }
            /* structural tampering */
            if (mc_mine()) {
                for (int i = 0; i < 4; i++)
                    for (int j = i + 1; j < 4; j++) {
                        mc_case("swap part headers %d,%d key %s hash %d", i, j, kn[k], hk);
                        pu_copy(&q, &p);
                        struct bpak_part_header t = q.h.parts[i];
                        q.h.parts[i] = q.h.parts[j];
                        q.h.parts[j] = t;
                        pu_save(&q, path);
                        must(false, vfy(path, pub[k]), "swapped part headers");
                        pu_rehash(&q);
                        pu_save(&q, path);
                        must(false, vfy(path, pub[k]), "swapped part headers, hash refreshed");
                    }
                for (size_t o = 0; o < p.len; o += mc_thorough || k == 3 ? 97 : 397) {
                    size_t ex0 = pu_offset(&p.h, 1) - 4096, ex1 = pu_offset(&p.h, 2) - 4096;
                    if (o >= ex0 && o < ex1) continue;
                    mc_case("payload byte %zu changed and payload hash recomputed, key %s hash %d", o, kn[k], hk);
                    pu_copy(&q, &p);
                    q.data[o] ^= 0x80;
                    pu_rehash(&q);
                    pu_save(&q, path);
                    must(false, vfy(path, pub[k]), "payload and stored hash both changed");
                    /* insertion of a byte inside hashed content */
                    pu_copy(&q, &p);
                    memmove(q.data + o + 1, q.data + o, q.len - o - 1);
                    q.data[o] ^= 0x40;
                    pu_save(&q, path);
                    must(false, vfy(path, pub[k]), "byte inserted into the payload");
                }
                for (int i = 0; i < 4; i++)
                    for (int what = 0; what < 5; what++) {
                        mc_case("part %d attribute %d changed with payload hash refreshed, key %s hash %d", i, what, kn[k], hk);
                        pu_copy(&q, &p);
                        if (what == 0) q.h.parts[i].flags ^= 1;
                        if (what == 1) { memmove(&q.h.parts[i], &q.h.parts[i + 1], sizeof(q.h.parts[0]) * (31 - i)); }
                        if (what == 2) q.h.parts[i].id ^= 1;
                        if (what == 3) { q.h.parts[4] = q.h.parts[i]; q.h.parts[4].id = 99; q.h.parts[4].flags = 1; }
                        if (what == 4) { if (!q.h.parts[i].pad_bytes) continue; q.h.parts[i].size++; q.h.parts[i].pad_bytes--; }
                        pu_rehash(&q);
                        pu_save(&q, path);
                        must(false, vfy(path, pub[k]), "part attribute changed");
                    }
                /* wrong keys, missing signature */
                pu_save(&p, path);
                for (int o = 0; o < 8; o++) {
                    mc_case("signed with %s-a hash %d, verified with %s-%c", kn[k], hk, kn[o & 3], o >= 4 ? 'b' : 'a');
                    must(o == k, vfy(path, pub[o]), "key pairing");
                }
                for (int sz = 0; sz <= 1040; sz++) {
                    if (sz == p.h.signature_sz) continue;
                    if (!mc_thorough && sz > 4 && sz < 1020 && sz % 64 > 1 && abs(sz - (int)p.h.signature_sz) > 3 && abs(sz - 512) > 3) continue;
                    mc_case("signature size field %d, key %s hash %d", sz, kn[k], hk);
                    pu_copy(&q, &p);
                    q.h.signature_sz = sz;
                    pu_save(&q, path);
                    must(false, vfy(path, pub[k]), "wrong signature size");
                }
                mc_case("zero signature, key %s hash %d", kn[k], hk);
                pu_copy(&q, &p);
                memset(q.h.signature, 0, 512);
                pu_save(&q, path);
                must(false, vfy(path, pub[k]), "all-zero signature");
                q.h.signature_sz = 0;
                pu_save(&q, path);
                must(false, vfy(path, pub[k]), "missing signature");
            }
            /* signing by the implementation */
            if (mc_mine()) {
                mc_case("bpak sign: key %s hash %d", kn[k], hk);
                memset(p.h.signature, 0, 512);
                p.h.signature_sz = 0;
                pu_save(&p, path);
                must(true, tool("", "sign", path, "--key", key(k, ".pem"), NULL), "sign command");
                for (int o = 0; o < 8; o++) {
                    must(o == k, vfy(path, pub[o]), "tool-signed package, library verify");
                    must(o == k, tool("", "verify", path, "--key", key(o, ".pub.pem"), NULL), "tool-signed package, tool verify");
                }
                if (!pu_load(&q, path)) mc_die("load");
                MC_CHECK(pu_verify_sig(&q.h, key(k, ".pub.pem")), "signature made by the tool does not verify independently");
            }
            if (k == 3 && hk == 1) {
                pu_sign(&p, key(k, ".pem"));
                pu_save(&p, path);
                flips(&p, path, pub[k], k, hk, mc_thorough ? 8 : 0, true);
            }
            pu_free(&p);
        }
    pu_free(&q);
    return 0;
}
