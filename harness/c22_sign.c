/* C22: signing, external signing and repeated signing. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/crypto.h>
#include <mbedtls/pk.h>
#include <mbedtls/md.h>
#include <unistd.h>

static uint8_t R[9000];
static char W[300], SIGF[300], HASHF[300], SRC[300];
static const char *keys[] = {"p256-a", "p256-b", "p384-a", "p521-a", "rsa4096-a"};
#define NK 5
static struct bpak_key *pub[NK];
static const char *kf(int k, const char *suffix)
{
    char b[60];
    snprintf(b, sizeof b, "%s%s", keys[k], suffix);
    return pu_key(b);
}
static int rng(void *u, unsigned char *b, size_t n)
{
    static uint32_t s = 777;
    (void)u;
    for (size_t i = 0; i < n; i++) { s = s * 1664525u + 1013904223u; b[i] = s >> 24; }
    return 0;
}
static size_t ext_sign(int k, int hk, const uint8_t *d, size_t n, uint8_t *sig)
{
    mbedtls_pk_context c;
    size_t l = 0;
    mbedtls_pk_init(&c);
    if (mbedtls_pk_parse_keyfile(&c, kf(k, ".pem"), NULL)) mc_die("key");
    if (mbedtls_pk_sign(&c, hk == 1 ? MBEDTLS_MD_SHA256 : hk == 2 ? MBEDTLS_MD_SHA384 : MBEDTLS_MD_SHA512, d, n, sig, &l, rng, NULL)) mc_die("sign");
    mbedtls_pk_free(&c);
    return l;
}
enum { SIGN = 0, EXT = NK, LIB = 2 * NK, LIBEXT = LIB + 2, CH = LIBEXT + 2, NOPS = CH + 5 };
static const char *opname(int o)
{
    static char b[8][60];
    static int n;
    char *r = b[n++ & 7];
    static const char *ch[] = {"add metadata", "add part", "delete part", "set key id", "add excluded part"};
    if (o < EXT) sprintf(r, "sign with %s", keys[o]);
    else if (o < LIB) sprintf(r, "external signature with %s", keys[o - EXT]);
    else if (o < LIBEXT) sprintf(r, "bpak_pkg_sign with %s", keys[(o - LIB) * 2]);
    else if (o < CH) sprintf(r, "raw signature with %s", keys[(o - LIBEXT) * 4]);
    else sprintf(r, "%s", ch[o - CH]);
    return r;
}
static bool rsa(int o) { return o == SIGN + 4 || o == EXT + 4 || o == LIBEXT + 1; }
static struct bpak_package P;
/* returns the index of the key used, or -1 for a change */
static int apply(int o, int depth, int hk)
{
    char nm[20];
    struct pu a = {0};
    uint8_t d[64], sig[1024];
    int rc, k = -1;
    snprintf(nm, sizeof nm, "n%d-%d", o, depth);
    if (o < EXT) {
        k = o;
        rc = tool(NULL, "sign", W, "--key", kf(k, ".pem"), NULL);
        MC_CHECK(rc == 0, "signing fails (%d)", rc);
    } else if (o < LIB) {
        k = o - EXT;
        pu_load(&a, W);
        rc = tool(HASHF, "show", "--binary-hash", W, NULL);
        size_t n, m = pu_header_digest(&a.h, d);
        uint8_t *b = mc_read_file(HASHF, &n);
        MC_CHECK(rc == 0 && n == m && !memcmp(b, d, n), "the exported binary hash (%zu bytes, exit %d) is not the header digest", n, rc);
        size_t sl = ext_sign(k, hk, b, n, sig);
        free(b);
        rc = tool(HASHF, "show", "--hash", W, NULL);
        b = mc_read_file(HASHF, &n);
        MC_CHECK(rc == 0 && n == 2 * m + 1 && !memcmp(b, mc_hex(d, m), 2 * m), "the exported text hash differs from the header digest");
        free(b);
        mc_write_file(SIGF, sig, sl);
        rc = tool(NULL, "sign", W, "--signature", SIGF, NULL);
        MC_CHECK(rc == 0, "storing the signature fails (%d)", rc);
        pu_free(&a);
    } else if (o < CH) {
        if (bpak_pkg_open(&P, W, "rb+")) mc_fail("open");
        if (o < LIBEXT) {
            k = (o - LIB) * 2;
            rc = bpak_pkg_sign(&P, kf(k, ".der"));
        } else {
            k = (o - LIBEXT) * 4;
            size_t n = 64;
            rc = bpak_pkg_update_hash(&P, (char *)d, &n);
            MC_CHECK(rc == 0, "bpak_pkg_update_hash fails (%d)", rc);
            size_t sl = ext_sign(k, hk, d, n, sig);
            rc = bpak_pkg_write_raw_signature(&P, sig, sl);
        }
        MC_CHECK(rc == 0, "%s fails (%d)", opname(o), rc);
        if (!mc_thorough || (depth & 1)) {
            rc = bpak_pkg_verify(&P, pub[k]);
            MC_CHECK(rc == 0, "the open package does not verify after signing (%d)", rc);
        }
        bpak_pkg_close(&P);
    } else {
        switch (o - CH) {
        case 0: rc = tool(NULL, "add", W, "--meta", nm, "--from-string", "value", NULL); break;
        case 1: rc = tool(NULL, "add", W, "--part", nm, "--from-file", SRC, NULL); break;
        case 2: rc = tool(NULL, "delete", W, "--part", "data", NULL); if (rc) rc = tool(NULL, "delete", W, "--part", "excl", NULL); rc = 0; break;
        case 3: rc = tool(NULL, "set", W, "--key-id", nm, NULL); break;
        default: rc = tool(NULL, "add", W, "--part", nm, "--from-file", SRC, "--set-flag", "dont-hash", NULL); break;
        }
        MC_CHECK(rc == 0, "%s fails (%d)", opname(o), rc);
    }
    return k;
}
static void check_signed(const struct pu *before, const struct pu *after, int k, bool toolverify)
{
    struct bpak_header e = before->h;
    memcpy(e.signature, after->h.signature, 512);
    e.signature_sz = after->h.signature_sz;
    MC_CHECK(!memcmp(&e, &after->h, 4096), "signing changed header fields other than the signature");
    MC_CHECK(before->len == after->len && !memcmp(before->data, after->data, after->len), "signing changed the parts");
    MC_CHECK(after->h.signature_sz > 0 && after->h.signature_sz <= 512, "signature size %u", after->h.signature_sz);
    for (int i = after->h.signature_sz; i < 512; i++) MC_CHECK(!after->h.signature[i], "byte %d of the signature field is 0x%x, beyond the %u byte signature", i, after->h.signature[i], after->h.signature_sz);
    if (k < 4) MC_CHECK(after->h.signature_sz == (size_t)after->h.signature[1 + (after->h.signature[1] == 0x81)] + 2 + (after->h.signature[1] == 0x81), "signature size %u does not match the DER length", after->h.signature_sz);
    else MC_CHECK(after->h.signature_sz == 512, "RSA signature size %u", after->h.signature_sz);
    MC_CHECK(pu_verify_sig(&after->h, kf(k, ".pub.pem")), "the signature is not a valid %s signature of the header digest", keys[k]);
    (void)toolverify;
}
static int verify_with(int k)
{
    if (bpak_pkg_open(&P, W, "rb")) mc_fail("open for verification");
    int rc = bpak_pkg_verify(&P, pub[k]);
    bpak_pkg_close(&P);
    return rc;
}
static int path[8];
static char trail[600];
static void explore(int depth, int max, int hk, int last, int sk)
{
    struct pu before = {0}, after = {0};
    if (!pu_load(&before, W)) mc_die("load");
    for (int o = 0; o < NOPS; o++) {
        if (depth == 0 && !mc_mine()) continue;
        if ((rsa(o) || (o < LIB && o % NK > 1 && o >= EXT)) && depth >= 2 + mc_thorough) continue;
        path[depth] = o;
        trail[0] = 0;
        for (int i = 0; i <= depth; i++) { strcat(trail, opname(path[i])); strcat(trail, "; "); }
        mc_case("hash kind %d: %s", hk, trail);
        int k = apply(o, depth, hk);
        if (!pu_load(&after, W)) mc_fail("the archive is gone");
        int now = last;
        if (k >= 0) {
            check_signed(&before, &after, k, false);
            now = k;
        } else {
            MC_CHECK(!memcmp(before.h.signature, after.h.signature, 512) && before.h.signature_sz == after.h.signature_sz, "'%s' changed the signature", opname(o));
        }
        bool expect = false;
        for (int i = 0; i < NK; i++) {
            /* the last signing key, a second key of the same kind and one other */
            if (i != now && (depth > 1 || k < 0 || (i != (now == 0 ? 1 : 0) && i != (now + 2) % NK))) continue;
            bool e = k == i ? true /* established by check_signed */ : pu_verify_sig(&after.h, kf(i, ".pub.pem"));
            int rc = verify_with(i);
            MC_CHECK(!rc == e, "verification with %s gives %d, the signature is %s", keys[i], rc, e ? "valid" : "not valid");
            if (i == now) expect = e;
            else MC_CHECK(!e, "valid under %s", keys[i]);
        }
        if (k >= 0 && (depth < 2 || k == 0)) {
            int rc = tool(NULL, "verify", W, "--key", kf(k, ".pub.pem"), NULL);
            MC_CHECK(rc == 0 && expect, "verify with the signing key %s exits %d", keys[k], rc);
            if (k == 0) {
                rc = tool(NULL, "verify", W, "--key", kf(1, ".pub.pem"), NULL);
                MC_CHECK(rc, "verify with the wrong key succeeds");
            }
        }
        mc_eval(1);
        mc_trans(1);
        mc_state(mc_hash(&after.h, 4096, hk));
        mc_distinct(mc_hash(after.h.signature, 512, after.h.signature_sz));
        if (depth + 1 < max) explore(depth + 1, max, hk, now, sk);
        pu_save(&before, W);
    }
    pu_free(&before);
    pu_free(&after);
}
static void raw_sizes(void)
{
    uint8_t *big = malloc(70000);
    pu_fill(big, 70000, 5);
    for (int prev = 0; prev < 3; prev++)
        for (int n = 0; n <= 66200; n = n < 620 ? n + 1 : n < 2000 ? n + 97 : n < 4000 ? n + 500 : n < 65000 ? 65030 : n + 117) {
            if (!mc_mine()) continue;
            struct pu a = {0}, b = {0};
            pu_init(&a, 1);
            pu_part(&a, pu_id("data"), R, 700, 0);
            pu_rehash(&a);
            if (prev) { memset(a.h.signature, 0xa5, prev == 1 ? 70 : 512); a.h.signature_sz = prev == 1 ? 70 : 512; }
            for (int f = 0; f < 2; f++) {
                mc_case("%s signature of %d bytes over %s", f ? "tool:" : "library:", n, prev ? prev == 1 ? "a 70 byte one" : "a 512 byte one" : "none");
                pu_save(&a, W);
                int rc;
                uint8_t *exact = malloc(n ? n : 1);
                memcpy(exact, big, n);
                if (f) {
                    mc_write_file(SIGF, exact, n);
                    rc = tool(NULL, "sign", W, "--signature", SIGF, NULL);
                } else {
                    if (bpak_pkg_open(&P, W, "rb+")) mc_fail("open");
                    rc = bpak_pkg_write_raw_signature(&P, exact, n);
                    struct bpak_header e = a.h;
                    if (rc) MC_CHECK(!memcmp(&e, &P.header, 4096), "a refused signature changed the header in memory");
                    bpak_pkg_close(&P);
                }
                free(exact);
                if (n > 512) MC_CHECK(rc, "accepted");
                else if (n) MC_CHECK(!rc, "refused with %d", rc);
                pu_load(&b, W);
                struct bpak_header e = a.h;
                if (!rc) {
                    memset(e.signature, 0, 512);
                    memcpy(e.signature, big, n);
                    e.signature_sz = n;
                }
                MC_CHECK(!memcmp(&e, &b.h, 4096), rc ? "a refused signature changed the header" : "header content after storing the signature is wrong");
                MC_CHECK(a.len == b.len && !memcmp(a.data, b.data, a.len), "the parts changed");
                mc_eval(1);
                mc_trans(1);
                mc_state(mc_hash(&n, 4, prev * 2 + f));
                mc_distinct(mc_hash(&rc, 4, n > 512));
            }
            /* taking the signature out of a header, to compute the digest it covers */
            for (int x = 0; x < 6 && n <= 513; x++) {
                int cap = (int[]){n, n - 1, n + 1, 512, 0, 1}[x];
                if (cap < 0) continue;
                struct bpak_header h = a.h, e;
                size_t sz = cap;
                pu_fill(h.signature, 512, 4);
                h.signature_sz = n;
                e = h;
                uint8_t *o = malloc(cap ? cap : 1);
                mc_case("taking a %d byte signature into a %d byte buffer", n, cap);
                int rc = bpak_copyz_signature(&h, o, &sz);
                bool fits = n && n <= 512 && n <= cap;
                MC_CHECK(!rc == fits, "returns %d", rc);
                if (fits) {
                    MC_CHECK(sz == (size_t)n && !memcmp(o, e.signature, n), "another signature is returned (%zu bytes)", sz);
                    memset(e.signature, 0, 512); e.signature_sz = 0;
                }
                MC_CHECK(!memcmp(&h, &e, sizeof h), fits ? "the signature is not cleared, or more than it is" : "the header is changed although it fails");
                free(o);
                mc_eval(1);
            }
            pu_free(&a);
            pu_free(&b);
        }
    free(big);
}
static void created(void)
{
    /* every create option, key and key format; sign and verify on both front ends */
    static const char *hk[] = {"sha256", "sha384", "sha512"};
    static const char *sk[] = {"prime256v1", "secp384r1", "secp521r1", "rsa4096"};
    for (int h = 0; h < 3; h++)
        for (int s = 0; s < 4; s++)
            for (int k = 0; k < NK; k++)
                for (int f = 0; f < 4; f++) {
                    if (k == 4 && !mc_thorough && (h + s + f) % 3) continue;
                    if (!mc_mine()) continue;
                    mc_case("create --hash-kind %s --signature-kind %s, private key %s %s, public key %s", hk[h], sk[s], keys[k], f & 1 ? "der" : "pem", f & 2 ? "der" : "pem");
                    unlink(W);
                    int rc = tool(NULL, "create", W, "--hash-kind", hk[h], "--signature-kind", sk[s], NULL);
                    MC_CHECK(rc == 0, "create exits %d", rc);
                    rc = tool(NULL, "add", W, "--part", "data", "--from-file", SRC, NULL);
                    MC_CHECK(rc == 0, "add exits %d", rc);
                    struct pu a = {0}, b = {0};
                    pu_load(&a, W);
                    MC_CHECK(a.h.hash_kind == h + 1 && a.h.signature_kind == (s + 1) % 4 + 1, "create stored kinds %u/%u", a.h.hash_kind, a.h.signature_kind);
                    rc = tool(NULL, "sign", W, "--key", kf(k, f & 1 ? ".der" : ".pem"), NULL);
                    MC_CHECK(rc == 0, "sign exits %d", rc);
                    pu_load(&b, W);
                    check_signed(&a, &b, k, true);
                    rc = tool(NULL, "verify", W, "--key", kf(k, f & 2 ? ".pub.der" : ".pub.pem"), NULL);
                    MC_CHECK(rc == 0, "verify exits %d", rc);
                    for (int w = 0; w < NK; w++)
                        if (w != k) MC_CHECK(verify_with(w), "the package also verifies with %s", keys[w]);
                    mc_eval(1);
                    mc_trans(1);
                    mc_state(mc_hash(&b.h, 4096, f));
                    mc_distinct(mc_hash(&b.h, 4096, 0));
                    pu_free(&a);
                    pu_free(&b);
                }
}
int mc_run(void)
{
    pu_inproc = true;
    pu_fill(R, sizeof R, 31);
    strcpy(W, mc_path("w")); strcpy(SIGF, mc_path("sig")); strcpy(HASHF, mc_path("hash")); strcpy(SRC, mc_path("src"));
    mc_write_file(SRC, R, 700);
    for (int k = 0; k < NK; k++) if (bpak_crypto_load_public_key(kf(k, ".pub.pem"), &pub[k])) mc_fail("loading the public key %s fails", keys[k]);
    raw_sizes();
    created();
    for (int hk = 1; hk <= 3; hk++) {
        struct pu p;
        pu_init(&p, hk);
        pu_part(&p, pu_id("data"), R, 700, 0);
        pu_part(&p, pu_id("excl"), R, 60, 1);
        pu_meta(&p, pu_id("m"), 0, "x", 2);
        pu_rehash(&p);
        pu_save(&p, W);
        pu_free(&p);
        explore(0, mc_thorough ? 4 : 3, hk, 0, 1);
    }
    for (int k = 0; k < NK; k++) bpak_free(pub[k]);
    return 0;
}
