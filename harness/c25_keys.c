/* C25: key files load to the same key in every format; bad key files are refused. */
#include "mc.h"
#include "pu.h"
#include <bpak/crypto.h>
#include <bpak/pkg.h>
#include <mbedtls/pk.h>
#include <mbedtls/md.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>

static char T[300], W[300];
#define MARK ((struct bpak_key *)0x51)
static int kind_of(mbedtls_pk_context *c, bool priv)
{
    switch (mbedtls_pk_get_type(c)) {
    case MBEDTLS_PK_ECKEY:
        switch (mbedtls_pk_ec(*c)->grp.id) {
        case MBEDTLS_ECP_DP_SECP256R1: return priv ? BPAK_KEY_PRI_PRIME256v1 : BPAK_KEY_PUB_PRIME256v1;
        case MBEDTLS_ECP_DP_SECP384R1: return priv ? BPAK_KEY_PRI_SECP384r1 : BPAK_KEY_PUB_SECP384r1;
        case MBEDTLS_ECP_DP_SECP521R1: return priv ? BPAK_KEY_PRI_SECP521r1 : BPAK_KEY_PUB_SECP521r1;
        default: return -1;
        }
    case MBEDTLS_PK_RSA:
        return mbedtls_pk_get_bitlen(c) == 4096 ? priv ? BPAK_KEY_PRI_RSA4096 : BPAK_KEY_PUB_RSA4096 : -1;
    default: return -1;
    }
}
/* expected result: kind or -1, DER form of the key */
static int expect(const char *file, bool priv, uint8_t *der, size_t *dl)
{
    mbedtls_pk_context c;
    uint8_t b[8192];
    mbedtls_pk_init(&c);
    int kind = -1, rc = priv ? mbedtls_pk_parse_keyfile(&c, file, NULL) : mbedtls_pk_parse_public_keyfile(&c, file);
    if (!rc) {
        int n = priv ? mbedtls_pk_write_key_der(&c, b, sizeof b) : mbedtls_pk_write_pubkey_der(&c, b, sizeof b);
        if (n > 0) { kind = kind_of(&c, priv); memcpy(der, b + sizeof b - n, n); *dl = n; }
    }
    mbedtls_pk_free(&c);
    return kind;
}
static const char *pkinds(int k) { static char b[8][12]; static int n; char *r = b[n++ & 7]; sprintf(r, "%d", k); return r; }
/* compares the library with the expectation; returns the loaded kind or -1 */
static int load_check(const char *file, bool priv)
{
    static uint8_t der[8192];
    size_t dl = 0;
    int want = expect(file, priv, der, &dl);
    struct bpak_key *k = MARK;
    int rc = priv ? bpak_crypto_load_private_key(file, &k) : bpak_crypto_load_public_key(file, &k);
    mc_trans(1);
    mc_eval(1);
    mc_distinct(mc_hash(&rc, 4, priv));
    if (want < 0) {
        MC_CHECK(rc, "an undecodable or unsupported %s key file is accepted as kind %s", priv ? "private" : "public", pkinds(k == MARK ? -1 : (int)k->kind));
        MC_CHECK(k == MARK || !k, "a failed load sets the result to %p", (void *)k);
        return -1;
    }
    MC_CHECK(rc == 0 && k && k != MARK, "a %s key file is refused (%d)", priv ? "private" : "public", rc);
    MC_CHECK((int)k->kind == want, "loaded as kind %d instead of %d", k->kind, want);
    MC_CHECK(k->size == dl && !memcmp(k->data, der, dl), "the loaded %s key (%u bytes) differs from the key in the file (%zu bytes)", priv ? "private" : "public", k->size, dl);
    mc_state(mc_hash(k->data, k->size, k->kind));
    if (!priv) {
        /* the stored form loads back to the same key */
        struct bpak_key *q = MARK;
        uint8_t *exact = malloc(k->size);
        memcpy(exact, k->data, k->size);
        rc = bpak_crypto_parse_public_key(exact, k->size, &q);
        free(exact);
        MC_CHECK(rc == 0 && q->kind == k->kind && q->size == k->size && !memcmp(q->data, k->data, k->size), "the stored form of the key does not parse back (%d)", rc);
        bpak_free(q);
    }
    bpak_free(k);
    return want;
}
static void parse_check(const uint8_t *b, size_t n)
{
    uint8_t *exact = malloc(n ? n : 1), der[8192];
    if (n) memcpy(exact, b, n);
    mbedtls_pk_context c;
    mbedtls_pk_init(&c);
    int want = -1, dl = 0;
    if (!mbedtls_pk_parse_public_key(&c, exact, n) && (dl = mbedtls_pk_write_pubkey_der(&c, der, sizeof der)) > 0) want = kind_of(&c, false);
    mbedtls_pk_free(&c);
    struct bpak_key *k = MARK;
    int rc = bpak_crypto_parse_public_key(exact, n, &k);
    free(exact);
    mc_trans(1);
    mc_eval(1);
    mc_distinct(mc_hash(&rc, 4, 7));
    if (want < 0) {
        MC_CHECK(rc, "bpak_crypto_parse_public_key accepts an undecodable or unsupported key");
        MC_CHECK(k == MARK || !k, "a failed parse sets the result");
        return;
    }
    MC_CHECK(rc == 0 && k && k != MARK, "bpak_crypto_parse_public_key refuses a key (%d)", rc);
    MC_CHECK((int)k->kind == want && k->size == dl && !memcmp(k->data, der + sizeof der - dl, dl), "bpak_crypto_parse_public_key returns a different key");
    bpak_free(k);
}
static const char *base[] = {"p256-a", "p256-b", "p384-a", "p384-b", "p521-a", "p521-b", "rsa4096-a", "rsa4096-b"};
static const int pubkind[] = {BPAK_KEY_PUB_PRIME256v1, BPAK_KEY_PUB_PRIME256v1, BPAK_KEY_PUB_SECP384r1, BPAK_KEY_PUB_SECP384r1, BPAK_KEY_PUB_SECP521r1, BPAK_KEY_PUB_SECP521r1, BPAK_KEY_PUB_RSA4096, BPAK_KEY_PUB_RSA4096};
static const int prikind[] = {BPAK_KEY_PRI_PRIME256v1, BPAK_KEY_PRI_PRIME256v1, BPAK_KEY_PRI_SECP384r1, BPAK_KEY_PRI_SECP384r1, BPAK_KEY_PRI_SECP521r1, BPAK_KEY_PRI_SECP521r1, BPAK_KEY_PRI_RSA4096, BPAK_KEY_PRI_RSA4096};
static const char *priforms[] = {".pem", ".der", ".p8.pem", ".p8.der", NULL};
static const char *pubforms[] = {".pub.pem", ".pub.der", ".pkcs1.pub.pem", ".pkcs1.pub.der", NULL};
static const char *form(int k, const char *f)
{
    char b[60];
    snprintf(b, sizeof b, "%s%s", base[k], f);
    return pu_key(b);
}
static void formats(void)
{
    struct bpak_key *pub[8];
    for (int k = 0; k < 8; k++) if (bpak_crypto_load_public_key(form(k, ".pub.pem"), &pub[k])) mc_fail("loading the public key %s.pub.pem fails", base[k]);
    for (int k = 0; k < 8; k++) {
        for (int f = 0; pubforms[f]; f++) {
            char p[300];
            strcpy(p, form(k, pubforms[f]));
            if (access(p, R_OK)) continue;
            if (!mc_mine()) continue;
            mc_case("public key %s%s", base[k], pubforms[f]);
            MC_CHECK(load_check(p, false) == pubkind[k], "wrong kind");
            struct bpak_key *q;
            if (bpak_crypto_load_public_key(p, &q)) mc_fail("load");
            MC_CHECK(q->size == pub[k]->size && !memcmp(q->data, pub[k]->data, q->size), "differs from %s.pub.pem", base[k]);
            bpak_free(q);
            load_check(p, true);
            size_t n;
            uint8_t *b = mc_read_file(p, &n);
            parse_check(b, n);
            b[n] = 0;
            parse_check(b, n + 1);
            free(b);
        }
        for (int f = 0; priforms[f]; f++) {
            char p[300];
            strcpy(p, form(k, priforms[f]));
            if (access(p, R_OK)) continue;
            if (!mc_mine()) continue;
            mc_case("private key %s%s", base[k], priforms[f]);
            MC_CHECK(load_check(p, true) == prikind[k], "wrong kind");
            load_check(p, false);
            struct bpak_key *q, *r;
            if (bpak_crypto_load_private_key(p, &q) || bpak_crypto_load_private_key(form(k, ".pem"), &r)) mc_fail("load");
            MC_CHECK(q->size == r->size && !memcmp(q->data, r->data, q->size), "differs from %s.pem", base[k]);
            for (int hk = 1; hk <= 3; hk++)
                for (int m = 0; m < (mc_thorough ? 4 : 1); m++) {
                    uint8_t d[64], sig[1024], raw[3] = {hk, m, 7};
                    size_t sl = 512, dl = pu_digest(hk, raw, 3, d);
                    mc_case("private key %s%s, hash kind %d, message %d", base[k], priforms[f], hk, m);
                    int rc = bpak_crypto_sign(d, dl, hk, q, sig, &sl);
                    MC_CHECK(rc == 0 && sl > 0 && sl <= 512, "signing fails (%d)", rc);
                    for (int v = 0; v < 8; v++) {
                        bool ok = false;
                        rc = bpak_crypto_verify(sig, sl, d, dl, hk, pub[v], &ok);
                        mc_trans(1);
                        MC_CHECK(rc == 0 && ok == (v == k), "the signature %s under the public key %s (%d)", ok ? "verifies" : "does not verify", base[v], rc);
                    }
                    d[0] ^= 1;
                    bool ok = true;
                    bpak_crypto_verify(sig, sl, d, dl, hk, pub[k], &ok);
                    MC_CHECK(!ok, "the signature verifies for another digest");
                    d[0] ^= 1;
                    ok = true;
                    bpak_crypto_verify(sig, sl - 1, d, dl, hk, pub[k], &ok);
                    MC_CHECK(!ok, "a truncated signature verifies");
                    mc_eval(1);
                }
            bpak_free(q);
            bpak_free(r);
        }
    }
    for (int k = 0; k < 8; k++) bpak_free(pub[k]);
}
static void ops(const char *p, bool priv_ok, bool pub_ok)
{
    struct pu a;
    pu_init(&a, 1);
    pu_part(&a, pu_id("data"), "hello", 5, 0);
    pu_rehash(&a);
    pu_sign(&a, pu_key("p256-a.pem"));
    pu_save(&a, W);
    size_t n, m;
    uint8_t *before = mc_read_file(W, &n), *after;
    int r;
    r = tool(NULL, "verify", W, "--key", p, NULL);
    if (!pub_ok) MC_CHECK(r, "verify accepts the key");
    after = mc_read_file(W, &m);
    MC_CHECK(n == m && !memcmp(before, after, n), "verify changed the archive");
    free(after);
    r = tool(NULL, "add", W, "--part", "k", "--encoder", "key", "--from-file", p, NULL);
    after = mc_read_file(W, &m);
    MC_CHECK(!r == pub_ok, "add --encoder key exits %d", r);
    if (r) MC_CHECK(n == m && !memcmp(before, after, n), "the refused key changed the archive");
    free(after);
    mc_write_file(W, before, n);
    r = tool(NULL, "sign", W, "--key", p, NULL);
    after = mc_read_file(W, &m);
    MC_CHECK(!r == priv_ok, "sign exits %d", r);
    if (r) MC_CHECK(n == m && !memcmp(before, after, n), "the refused key changed the archive");
    free(after);
    free(before);
    pu_free(&a);
    mc_eval(1);
}
static void bad(void)
{
    struct dirent **e;
    int n = scandir(pu_key(""), &e, NULL, alphasort);
    if (n < 0) mc_die("scandir");
    for (int i = 0; i < n; i++) {
        const char *nm = e[i]->d_name;
        if (nm[0] == '.' ) continue;
        if (!mc_mine()) continue;
        char p[300];
        strcpy(p, pu_key(nm));
        mc_case("key file %s", nm);
        int a = load_check(p, true), b = load_check(p, false);
        if (!strncmp(nm, "bad-", 4)) MC_CHECK(a < 0 && b < 0, "accepted");
        size_t l;
        uint8_t *d = mc_read_file(p, &l);
        parse_check(d, l);
        d[l] = 0;
        parse_check(d, l + 1);
        free(d);
        ops(p, a >= 0, b >= 0);
    }
    for (int v = 0; v < 8; v++) {
        if (!mc_mine()) continue;
        char p[300];
        strcpy(p, mc_path("odd"));
        unlink(p);
        rmdir(p);
        static const char *nm[] = {"missing", "directory", "empty file", "one NUL byte", "text", "4096 zero bytes", "PEM header only", "an archive"};
        mc_case("key file: %s", nm[v]);
        static uint8_t z[9000];
        switch (v) {
        case 1: mkdir(p, 0755); break;
        case 2: mc_write_file(p, "", 0); break;
        case 3: mc_write_file(p, "", 1); break;
        case 4: mc_write_file(p, "this is not a key\n", 18); break;
        case 5: mc_write_file(p, z, 4096); break;
        case 6: mc_write_file(p, "-----BEGIN PUBLIC KEY-----\n", 27); break;
        case 7: { struct pu a; pu_init(&a, 1); pu_save(&a, p); pu_free(&a); break; }
        }
        MC_CHECK(load_check(p, true) < 0, "accepted");
        MC_CHECK(load_check(p, false) < 0, "accepted");
        ops(p, false, false);
        rmdir(p);
        unlink(p);
    }
    while (n--) free(e[n]);
    free(e);
}
/* 4096 bit keys whose encoding has every length up to what the loader takes */
static size_t der_len(uint8_t *o, size_t n)
{
    if (n < 128) { o[0] = n; return 1; }
    if (n < 256) { o[0] = 0x81; o[1] = n; return 2; }
    o[0] = 0x82; o[1] = n >> 8; o[2] = n;
    return 3;
}
static size_t der_wrap(uint8_t *o, uint8_t tag, const uint8_t *d, size_t n)
{
    uint8_t t[2000];
    t[0] = tag;
    size_t h = 1 + der_len(t + 1, n);
    memcpy(t + h, d, n);
    memcpy(o, t, h + n);
    return h + n;
}
static void lengths(void)
{
    static const uint8_t alg[] = {0x30, 13, 6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 13, 1, 1, 1, 5, 0};
    size_t n;
    uint8_t *base_ = mc_read_file(pu_key("rsa4096-a.pub.der"), &n), N[513];
    memcpy(N, base_ + n - 518, 513); /* modulus, before the exponent 02 03 01 00 01 */
    free(base_);
    if (N[0] || !(N[1] & 0x80)) mc_die("modulus");
    for (int e = 1; e <= 500; e++) {
        if (!mc_thorough && e > 3 && e % 32 && e < 440) continue;
        if (!mc_mine()) continue;
        uint8_t x[600], a[2000], b[2000];
        for (int i = 0; i < e; i++) x[i] = i == e - 1 ? 3 : i ? 0x11 * (i % 15) : 1;
        size_t k = der_wrap(a, 2, N, 513);
        k += der_wrap(a + k, 2, x, e);
        k = der_wrap(b, 0x30, a, k);
        memmove(b + 1, b, k); b[0] = 0;
        k = der_wrap(a, 3, b, k + 1);
        memcpy(b, alg, sizeof alg); memcpy(b + sizeof alg, a, k);
        k = der_wrap(a, 0x30, b, k + sizeof alg);
        if (k > 1024) break;
        mc_case("a public key of %zu bytes", k);
        mc_write_file(T, a, k);
        MC_CHECK(load_check(T, false) == BPAK_KEY_PUB_RSA4096, "not loaded as a 4096 bit key");
        parse_check(a, k);
        struct pu p;
        pu_init(&p, 1);
        pu_part(&p, pu_id("before"), "hello", 5, 0);
        pu_rehash(&p);
        pu_save(&p, W);
        MC_CHECK(tool(NULL, "add", W, "--part", "k", "--encoder", "key", "--from-file", T, NULL) == 0, "add --encoder key fails");
        pu_part(&p, pu_id("k"), a, k, 0);
        pu_rehash(&p);
        size_t m;
        uint8_t *f = mc_read_file(W, &m);
        MC_CHECK(m == 4096 + p.len && !memcmp(f, &p.h, 4096) && !memcmp(f + 4096, p.data, p.len), "the archive with the key is not as expected");
        free(f);
        pu_free(&p);
    }
}
static const char *mutants[] = {"p256-a.pub.der", "p256-a.pub.pem", "p256-a.der", "p256-a.pem", "p256-a.p8.der", "p384-a.pub.der", "p384-a.der", "p521-a.pub.der", "p521-a.der", "p521-a.pem", "p256-a.explicit.pem",
                                "p256-a.comp.pub.pem", "rsa4096-a.pub.der", "rsa4096-a.pub.pem", "rsa4096-a.pkcs1.pub.der", "bad-secp256k1.pub.pem", "bad-bp384.pub.pem", "rsa4096-a.der", "rsa4096-a.p8.der", "rsa4096-a.pem", NULL};
static void mutate(void)
{
    static const uint8_t xv[] = {1, 0x80, 0xff, 2, 0x10, 0x40, 4, 8, 0x20};
    for (int f = 0; mutants[f]; f++) {
        size_t n;
        uint8_t *b = mc_read_file(pu_key(mutants[f]), &n);
        bool rsapriv = !strncmp(mutants[f], "rsa", 3) && !strstr(mutants[f], "pub");
        bool pub = strstr(mutants[f], "pub"), der = strstr(mutants[f], ".der");
        /* truncations and extensions */
        for (size_t l = 0; l <= n + 3; l++) {
            if (l == n) continue;
            if (rsapriv && !mc_thorough && l > 100 && l < n - 100 && l % 13) continue;
            if (!mc_mine()) continue;
            uint8_t *c = calloc(1, n + 8);
            memcpy(c, b, l < n ? l : n);
            for (size_t i = n; i < l; i++) c[i] = "\n0x"[i - n];
            mc_write_file(T, c, l);
            mc_case("%s %s to %zu bytes", mutants[f], l < n ? "truncated" : "extended", l);
            int r = load_check(T, !pub);
            if (der && l < n) MC_CHECK(r < 0, "a truncated key is accepted");
            load_check(T, pub);
            if (pub) parse_check(c, l);
            free(c);
        }
        int nx = rsapriv ? mc_thorough ? 3 : 1 : mc_thorough ? 9 : 4;
        for (size_t o = 0; o < n; o++)
            for (int x = 0; x < nx; x++) {
                if (rsapriv && !mc_thorough && o > 40 && o % 17) continue;
                if (!mc_mine()) continue;
                b[o] ^= xv[x];
                mc_write_file(T, b, n);
                mc_case("%s with byte %zu xor 0x%x", mutants[f], o, xv[x]);
                load_check(T, !pub);
                if (pub) parse_check(b, n);
                if (pub && !der) { b[n] = 0; parse_check(b, n + 1); }
                if (o < 60) load_check(T, pub);
                b[o] ^= xv[x];
            }
        free(b);
    }
}
int mc_run(void)
{
    pu_inproc = true;
    strcpy(T, mc_path("key"));
    strcpy(W, mc_path("w"));
    formats();
    bad();
    lengths();
    mutate();
    return 0;
}
