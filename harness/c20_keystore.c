/* C20: keystore lookup and generated keystore source. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/crypto.h>
#include <bpak/keystore.h>
#include <mbedtls/pk.h>
#include <dlfcn.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

extern char **environ;
static uint8_t R[20000];
static char K[300], W[300], O[300], SRC[300], SO[300], KF[300];
static const char *base[] = {"p256-a", "p384-a", "p521-a", "rsa4096-a", "p256-b", "p384-b", "p521-b", "rsa4096-b"};
static const int kinds[] = {BPAK_KEY_PUB_PRIME256v1, BPAK_KEY_PUB_SECP384r1, BPAK_KEY_PUB_SECP521r1, BPAK_KEY_PUB_RSA4096, BPAK_KEY_PUB_PRIME256v1, BPAK_KEY_PUB_SECP384r1, BPAK_KEY_PUB_SECP521r1, BPAK_KEY_PUB_RSA4096};
static uint8_t *der[8], *alt[8]; /* canonical form; another accepted encoding of the same key */
static size_t dl[8], al[8];
#define KSID 0x1234abcd
#define MARK ((struct bpak_key *)0x51)
static const char *kn(int k) { static char b[8][8]; static int n; char *r = b[n++ & 7]; sprintf(r, "key-%c", 'a' + k); return r; }
static void provider(struct pu *p, uint32_t id) { pu_uuid(p, 1); pu_meta(p, pu_id("keystore-provider-id"), 0, &id, 4); }
static void expect_key(uint32_t ks, uint32_t id, int k, bool ok)
{
    struct bpak_key *q = MARK;
    int rc = bpak_keystore_load_key_from_file(K, ks, id, NULL, NULL, &q);
    mc_trans(1);
    mc_eval(1);
    mc_distinct(mc_hash(&rc, 4, ok));
    if (!ok) {
        MC_CHECK(rc, "looking up key %x in keystore %x succeeds", id, ks);
        MC_CHECK(q == MARK || !q, "a failed lookup sets the result");
        return;
    }
    MC_CHECK(rc == 0 && q && q != MARK, "looking up key %x in keystore %x fails (%d)", id, ks, rc);
    MC_CHECK(q->id == id && (int)q->kind == kinds[k], "key %x: id %x kind %d", id, q->id, q->kind);
    MC_CHECK(q->size == dl[k] && !memcmp(q->data, der[k], dl[k]), "looking up key %x returns other key data than stored (%u bytes)", id, q->size);
    bpak_free(q);
}
/* ---- generated source, compiled and loaded ---- */
static int generate_and_compare(const struct pu *p, const int *keys, int n, const char *name, const char *sym, bool decorate)
{
    int rc = decorate ? tool(SRC, "generate", "keystore", "--decorate", "--name", name, K, NULL) : tool(SRC, "generate", "keystore", "--name", name, K, NULL);
    MC_CHECK(rc == 0, "generate keystore exits %d", rc);
    unlink(SO);
    char inc[300];
    snprintf(inc, sizeof inc, "-I%s/include", mc_repo);
    char *av[] = {"gcc", "-w", "-O0", "-shared", "-fPIC", "-x", "c", inc, "-I" GEN_DIR, "-o", SO, SRC, NULL};
    pid_t pid;
    int st;
    if (posix_spawnp(&pid, "gcc", NULL, NULL, av, environ)) mc_die("gcc");
    waitpid(pid, &st, 0);
    MC_CHECK(st == 0, "the generated source does not compile");
    void *h = dlopen(SO, RTLD_NOW | RTLD_LOCAL);
    if (!h) mc_die("dlopen: %s", dlerror());
    char s[100];
    snprintf(s, sizeof s, "keystore_%s", sym);
    struct bpak_keystore *ks = dlsym(h, s);
    MC_CHECK(ks, "the generated source has no %s", s);
    MC_CHECK(ks->id == KSID && ks->no_of_keys == n && ks->verified, "generated keystore: id %x, %d keys", ks->id, ks->no_of_keys);
    for (int k = 0; k < 8; k++) {
        bool in = false;
        for (int i = 0; i < n; i++) in |= keys[i] == k;
        struct bpak_key *q = NULL, *f = MARK;
        rc = bpak_keystore_get(ks, pu_id(kn(k)), &q);
        MC_CHECK(!rc == in && !!q == in, "looking up %s in the generated keystore gives %d", kn(k), rc);
        if (!in) continue;
        MC_CHECK(q->id == pu_id(kn(k)) && (int)q->kind == kinds[k] && q->size == dl[k] && !memcmp(q->data, der[k], dl[k]), "the generated %s (kind %d, %u bytes) is not the stored key", kn(k), q->kind, q->size);
        rc = bpak_keystore_load_key_from_file(K, KSID, pu_id(kn(k)), NULL, NULL, &f);
        MC_CHECK(rc == 0 && f->size == q->size && f->kind == q->kind && !memcmp(f->data, q->data, q->size), "the generated %s differs from the one in the archive", kn(k));
        bpak_free(f);
    }
    dlclose(h);
    mc_eval(1);
    return 0;
}
static void build(struct pu *p, const int *seq, int n, int form)
{
    pu_init(p, 1 + n % 3);
    provider(p, KSID);
    if (n && seq[0] & 1) { p->h.keystore_id = KSID ^ 0x70; p->h.key_id = pu_id(kn(seq[0] ^ 1)); } /* who signed the keystore, not which it is */
    for (int i = 0; i < n; i++) {
        bool a = form == 1 || (form == 2 && i % 2);
        pu_part(p, pu_id(kn(seq[i])), a ? alt[seq[i]] : der[seq[i]], a ? al[seq[i]] : dl[seq[i]], i == 1 ? 1 : 0);
    }
    pu_rehash(p);
    pu_save(p, K);
}
static void sequences(void)
{
    int seq[8];
    for (int n = 0; n <= 8; n++) {
        int tot = 1, maxn = mc_thorough ? 4 : 3;
        for (int i = 0; i < n && n <= maxn; i++) tot *= 8;
        if (n > maxn) tot = 16;
        for (int v = 0; v < tot; v++) {
            int x = v;
            bool dup = false;
            for (int i = 0; i < n; i++) {
                if (n <= maxn) { seq[i] = x % 8; x /= 8; } else seq[i] = (v & 8) ? (v + 8 - i) % 8 : (v + i) % 8;
                for (int j = 0; j < i; j++) dup |= seq[j] == seq[i];
            }
            if (dup) continue;
            for (int form = 0; form < 3; form++) {
                if (form && !mc_thorough && n > 2 && v % 7) continue;
                if (!mc_mine()) continue;
                struct pu p;
                build(&p, seq, n, form);
                char t[100] = "";
                for (int i = 0; i < n; i++) sprintf(t + strlen(t), "%s ", base[seq[i]]);
                mc_case("keystore with keys %s(form %d)", t, form);
                for (int k = 0; k < 8; k++) {
                    bool in = false;
                    for (int i = 0; i < n; i++) in |= seq[i] == k;
                    expect_key(KSID, pu_id(kn(k)), k, in);
                    if (k < 3) { expect_key(KSID + 1, pu_id(kn(k)), k, false); expect_key(0, pu_id(kn(k)), k, false); }
                }
                expect_key(KSID, 0, 0, false);
                expect_key(KSID, pu_id("key-z"), 0, false);
                expect_key(KSID, KSID, 0, false);
                mc_state(mc_hash(&p.h, 4096, form));
                if (n <= 2 || mc_thorough || v % 5 == 0) generate_and_compare(&p, seq, n, v % 3 ? "ks" : v % 2 ? "my-key-store" : "a-b", v % 3 ? "ks" : v % 2 ? "my_key_store" : "a_b", v % 2);
                pu_free(&p);
            }
        }
    }
}
/* ---- dashes at every place of the name ---- */
static void names(void)
{
    for (int m = 0; m < 64; m++) {
        if (!mc_mine()) continue;
        char n[8], y[8];
        int k[2] = {m % 8, (m + 3) % 8};
        for (int i = 0; i < 6; i++) { n[i] = m >> i & 1 ? '-' : 'a' + i; y[i] = m >> i & 1 ? '_' : 'a' + i; }
        n[6] = y[6] = 0;
        mc_case("keystore generated with the name %s", n);
        struct pu p;
        build(&p, k, 2, 0);
        generate_and_compare(&p, k, 2, n, y, m & 1);
        mc_trans(1);
        pu_free(&p);
    }
}
/* ---- surroundings: other parts, wrong provider entries ---- */
static void surroundings(void)
{
    static const size_t sz[] = {0, 1, 511, 512, 513, 1023, 1024, 1025, 9000};
    for (int k = 0; k < 8; k++)
        for (int s = 0; s < 9; s++)
            for (int f = 0; f < 4; f++) {
                if (!mc_mine()) continue;
                struct pu p;
                pu_init(&p, 1);
                pu_meta(&p, pu_id("keystore-provider-id"), pu_id(kn(k)), "\0\0\0", 4); /* bound to a part: not the provider */
                provider(&p, KSID);
                if (f == 3) { pu_part_t(&p, pu_id("other"), R, sz[s], 700, 324, 0); }
                else pu_part(&p, pu_id("other"), R, sz[s], f & 1);
                pu_part(&p, pu_id(kn(k)), der[k], dl[k], f >> 1);
                pu_part(&p, pu_id("tail"), R, 30, 0);
                pu_rehash(&p);
                if (f & 1) for (int i = 0; i < 3; i++) p.h.parts[i].offset = 4096; /* informative only */
                pu_save(&p, K);
                mc_case("%s behind a part of %zu bytes, variant %d", base[k], sz[s], f);
                expect_key(KSID, pu_id(kn(k)), k, true);
                expect_key(KSID, pu_id("other"), k, false);
                expect_key(KSID, pu_id("tail"), k, false);
                expect_key(KSID, pu_tree_id(pu_id(kn(k))), k, false);
                int rc = tool(NULL, "generate", "keystore", "--name", "x", K, NULL);
                MC_CHECK(rc, "generate accepts a keystore with a part that is no key");
                /* generated source of a keystore whose stored offsets are not up to date */
                struct pu q;
                pu_init(&q, 1);
                provider(&q, KSID);
                int o = (k + 1) % 8, two[2] = {o, k};
                pu_part(&q, pu_id(kn(o)), der[o], dl[o], 0);
                pu_part(&q, pu_id(kn(k)), der[k], dl[k], 0);
                pu_rehash(&q);
                q.h.parts[1].offset = f * 512;
                pu_save(&q, K);
                if (s == 0) generate_and_compare(&q, two, 2, "n", "n", f & 1);
                pu_free(&p);
                pu_free(&q);
            }
    /* provider entry: every size and several values, missing, bound */
    for (int n = 0; n <= 8; n++)
        for (int v = 0; v < 6; v++) {
            if (!mc_mine()) continue;
            struct pu p;
            uint32_t w[3] = {v == 1 ? KSID ^ 1 : v == 2 ? KSID ^ 0x80000000u : v == 3 ? __builtin_bswap32(KSID) : KSID, 7, 9};
            pu_init(&p, 1);
            pu_uuid(&p, 1);
            if (n) pu_meta(&p, pu_id("keystore-provider-id"), v == 4 ? 99 : 0, w, n);
            if (v == 5 && n) p.h.meta[1].offset = 1920 - n; /* at the very end of the area */
            if (v == 5 && n) memcpy(p.h.metadata + 1920 - n, w, n);
            pu_part(&p, pu_id(kn(0)), der[0], dl[0], 0);
            pu_rehash(&p);
            pu_save(&p, K);
            mc_case("provider id of %d bytes, variant %d", n, v);
            struct bpak_key *q = MARK;
            int rc = bpak_keystore_load_key_from_file(K, KSID, pu_id(kn(0)), NULL, NULL, &q);
            bool must = n == 4 && (v == 0 || v == 5), mustnot = n < 4 || (v >= 1 && v <= 4);
            if (must) MC_CHECK(rc == 0, "the key is not found (%d)", rc);
            if (mustnot) MC_CHECK(rc, "the key is found");
            if (!rc) bpak_free(q);
            rc = tool(NULL, "generate", "keystore", "--name", "x", K, NULL);
            if (must) MC_CHECK(rc == 0, "generate exits %d", rc);
            if (n < 4 || v == 4) MC_CHECK(rc, "generate succeeds");
            mc_eval(2);
            pu_free(&p);
        }
}
/* ---- damaged keystores ---- */
static void damaged(void)
{
    for (int k = 0; k < 4; k++) {
        struct pu p;
        int seq[3] = {(k + 1) % 4, k, (k + 2) % 4};
        build(&p, seq, 3, 0);
        size_t off = pu_offset(&p.h, 1) - 4096;
        for (size_t o = 0; o < dl[k]; o++)
            for (int b = 0; b < (mc_thorough ? 8 : 3); b++) {
                if (!mc_mine()) continue;
                p.data[off + o] ^= 1 << (b * 3 % 8);
                pu_save(&p, K);
                mc_case("keystore with bit %d of byte %zu of %s flipped", b * 3 % 8, o, base[k]);
                struct bpak_key *q = MARK;
                int rc = bpak_keystore_load_key_from_file(K, KSID, pu_id(kn(k)), NULL, NULL, &q);
                mbedtls_pk_context c;
                uint8_t t[4096];
                mbedtls_pk_init(&c);
                int n = -1;
                if (!mbedtls_pk_parse_public_key(&c, p.data + off, dl[k])) n = mbedtls_pk_write_pubkey_der(&c, t, sizeof t);
                mbedtls_pk_free(&c);
                if (!rc) {
                    MC_CHECK(n > 0, "an undecodable key is returned");
                    MC_CHECK(q->size == n && !memcmp(q->data, t + sizeof t - n, n), "the returned key is not the stored one");
                    MC_CHECK((int)q->kind == kinds[k], "kind %d", q->kind);
                    bpak_free(q);
                } else MC_CHECK(q == MARK || !q, "a failed lookup sets the result");
                expect_key(KSID, pu_id(kn(seq[0])), seq[0], true);
                p.data[off + o] ^= 1 << (b * 3 % 8);
                mc_eval(1);
                mc_trans(1);
                mc_state(mc_hash(&o, sizeof o, k * 8 + b));
            }
        /* truncation at every length */
        pu_save(&p, K);
        size_t n;
        uint8_t *img = mc_read_file(K, &n);
        size_t end = pu_offset(&p.h, 1) + dl[k];
        for (size_t l = 0; l < n; l += l < 4000 ? 97 : 1) {
            if (!mc_mine()) continue;
            mc_write_file(K, img, l);
            mc_case("keystore truncated to %zu of %zu bytes", l, n);
            expect_key(KSID, pu_id(kn(k)), k, l >= end);
            if (l < end) MC_CHECK(tool(NULL, "generate", "keystore", "--name", "x", K, NULL), "generate succeeds");
        }
        free(img);
        /* part size field: anything but the true size must not return a different key */
        for (uint64_t s = 0; s < 1400; s++) {
            if (!mc_mine()) continue;
            struct pu q = {0};
            pu_copy(&q, &p);
            q.h.parts[1].size = s;
            q.h.parts[1].pad_bytes = (512 - s % 512) % 512;
            pu_save(&q, K);
            mc_case("size field of %s set to %lu", base[k], (unsigned long)s);
            struct bpak_key *r = MARK;
            int rc = bpak_keystore_load_key_from_file(K, KSID, pu_id(kn(k)), NULL, NULL, &r);
            mc_trans(1);
            mc_eval(1);
            if (s < dl[k]) MC_CHECK(rc, "a truncated key is returned");
            if (!rc) { MC_CHECK(r->size == dl[k] && !memcmp(r->data, der[k], dl[k]), "another key is returned"); bpak_free(r); }
            pu_free(&q);
        }
        pu_free(&p);
    }
    for (int v = 0; v < 6; v++) {
        if (!mc_mine()) continue;
        struct pu p;
        int seq[1] = {0};
        build(&p, seq, 1, 0);
        static const char *nm[] = {"missing", "bad magic", "no hash kind", "metadata out of bounds", "bad alignment", "empty file"};
        mc_case("keystore: %s", nm[v]);
        switch (v) {
        case 1: p.h.magic ^= 1; break;
        case 2: p.h.hash_kind = 0; break;
        case 3: p.h.meta[0].offset = 1919; break;
        case 4: p.h.parts[0].pad_bytes--; break;
        }
        pu_save(&p, K);
        if (v == 0) unlink(K);
        if (v == 5) mc_write_file(K, "", 0);
        expect_key(KSID, pu_id(kn(0)), 0, false);
        MC_CHECK(tool(NULL, "generate", "keystore", "--name", "x", K, NULL), "generate succeeds");
        pu_free(&p);
    }
}
/* ---- header callback ---- */
static int cbrc, cbcalls;
static struct bpak_header cbh;
static void *cbuser;
static int cb(struct bpak_header *h, void *u) { cbcalls++; cbh = *h; cbuser = u; return cbrc; }
static void callback(void)
{
    static const int rcs[] = {0, -1, -7, -100};
    for (int k = 0; k < 8; k++)
        for (int c = 0; c < 4; c++)
            for (int wrong = 0; wrong < 3; wrong++) {
                if (!mc_mine()) continue;
                struct pu p;
                build(&p, &k, 1, 0);
                mc_case("header callback returning %d, %s", rcs[c], wrong == 0 ? "existing key" : wrong == 1 ? "unknown key" : "other keystore");
                cbrc = rcs[c];
                cbcalls = 0;
                struct bpak_key *q = MARK;
                int rc = bpak_keystore_load_key_from_file(K, KSID + (wrong == 2), pu_id(wrong == 1 ? "nope" : kn(k)), cb, &p, &q);
                MC_CHECK(!rc == (!c && !wrong), "lookup returns %d", rc);
                if (c && !wrong) MC_CHECK(rc == rcs[c], "the callback's error %d becomes %d", rcs[c], rc);
                if (!rc) MC_CHECK(cbcalls == 1, "a key is returned without asking the callback");
                if (cbcalls) MC_CHECK(!memcmp(&cbh, &p.h, 4096) && cbuser == &p, "the callback sees another header");
                if (!rc) MC_CHECK(q->id == pu_id(kn(k)) && q->size == dl[k] && !memcmp(q->data, der[k], dl[k]), "with a callback: id %x or contents are not those of the key", q->id);
                if (!rc) bpak_free(q);
                mc_eval(1);
                mc_trans(1);
                pu_free(&p);
            }
}
/* ---- in-memory keystores ---- */
static void in_memory(void)
{
    static struct bpak_key keys[4];
    struct { struct bpak_keystore ks; struct bpak_key *k[4]; } s;
    for (int n = 0; n <= 4; n++)
        for (int perm = 0; perm < 256; perm++)
            for (int ver = 0; ver < 2; ver++) {
                if (!mc_mine()) continue;
                for (int i = 0; i < 4; i++) { keys[i].id = 100 + (perm >> (2 * i) & 3); ((struct bpak_key **)(&s.ks + 1))[i] = &keys[i]; }
                s.ks.id = 1;
                s.ks.no_of_keys = n;
                s.ks.verified = ver;
                mc_case("in-memory keystore of %d keys, ids %x, verified %d", n, perm, ver);
                for (uint32_t id = 99; id < 105; id++) {
                    struct bpak_key *q = MARK, *w = NULL;
                    for (int i = n - 1; i >= 0; i--) if (keys[i].id == id) w = &keys[i];
                    int rc = bpak_keystore_get(&s.ks, id, &q);
                    mc_trans(1);
                    mc_eval(1);
                    MC_CHECK(q == (ver ? w : NULL) && !rc == (ver && w), "looking up %u returns %d", id, rc);
                }
            }
}
/* every number of keys: the first, the last, every other and no key are looked up */
static void many_keys(void)
{
    static struct bpak_key keys[255];
    static struct { struct bpak_keystore ks; struct bpak_key *k[255]; } s;
    for (int i = 0; i < 255; i++) { keys[i].id = 1000 + 7 * i; ((struct bpak_key **)(&s.ks + 1))[i] = &keys[i]; }
    s.ks.id = 1; s.ks.verified = true;
    for (int n = 0; n <= 255; n++) {
        if (!mc_mine()) continue;
        s.ks.no_of_keys = n;
        mc_case("in-memory keystore of %d different keys", n);
        for (int i = 0; i < 255; i++) {
            struct bpak_key *q = MARK;
            int rc = bpak_keystore_get(&s.ks, keys[i].id, &q);
            mc_trans(1);
            mc_eval(1);
            MC_CHECK(q == (i < n ? &keys[i] : NULL) && !rc == (i < n), "looking up key %d of %d returns %d", i, n, rc);
        }
    }
}
/* ---- ids that differ in a single bit ---- */
static void close_ids(void)
{
    static struct bpak_key keys[3];
    struct { struct bpak_keystore ks; struct bpak_key *k[3]; } s;
    for (int a = -1; a < 32; a++)
        for (int b = -1; b < 32; b++) {
            if (!mc_mine()) continue;
            uint32_t id = pu_id("key-a"), ia = a < 0 ? id : id ^ 1u << a, ib = b < 0 ? id : id ^ 1u << b;
            mc_case("keys named %x and %x, bits %d and %d of %x changed", ia, ib, a, b, id);
            /* in memory: ia, ib, and their combination */
            uint32_t w[3] = {ia, ib, ia ^ ib ^ id};
            for (int i = 0; i < 3; i++) { keys[i].id = w[i]; ((struct bpak_key **)(&s.ks + 1))[i] = &keys[i]; }
            s.ks.id = 1; s.ks.verified = true;
            for (int n = 0; n <= 3; n++) {
                s.ks.no_of_keys = n;
                for (int q = -1; q < 32; q++) {
                    uint32_t want = q < 0 ? id : id ^ 1u << q;
                    struct bpak_key *r = MARK, *e = NULL;
                    for (int i = n - 1; i >= 0; i--) if (w[i] == want) e = &keys[i];
                    int rc = bpak_keystore_get(&s.ks, want, &r);
                    mc_trans(1);
                    mc_eval(1);
                    MC_CHECK(r == e && !rc == !!e, "looking up %x among %d keys returns %d", want, n, rc);
                }
            }
            if (ia == ib) continue;
            /* in an archive, the provider id differing in one bit too */
            struct pu p;
            pu_init(&p, 1);
            provider(&p, KSID);
            pu_part(&p, ia, der[0], dl[0], 0);
            pu_part(&p, ib, der[1], dl[1], 0);
            pu_rehash(&p);
            pu_save(&p, K);
            expect_key(KSID, ia, 0, true);
            expect_key(KSID, ib, 1, true);
            if (a >= 0 && b >= 0) expect_key(KSID, id, 0, false);
            for (int q = 0; q < 32; q++) {
                uint32_t want = id ^ 1u << q;
                if (want != ia && want != ib) expect_key(KSID, want, 0, false);
                expect_key(KSID ^ 1u << q, ia, 0, false);
            }
            mc_state(mc_hash(&p.h, 4096, 0));
            pu_free(&p);
        }
}
/* ---- verification through a keystore ---- */
static void verify(void)
{
    for (int signer = 0; signer < 8; signer++)
        for (int named = 0; named < 9; named++)
            for (int prov = 0; prov < 2; prov++)
                for (int set = 0; set < 3; set++) {
                    if (signer % 4 == 3 && !mc_thorough && named != signer && named % 3) continue;
                    if (!mc_mine()) continue;
                    int seq[4] = {0, 2, 4, 3}, all[8] = {7, 6, 5, 4, 3, 2, 1, 0};
                    struct pu ks, p;
                    build(&ks, set == 0 ? all : seq, set == 0 ? 8 : set == 1 ? 4 : 0, 0);
                    pu_init(&p, 1 + signer % 3);
                    pu_part(&p, pu_id("data"), R, 700, 0);
                    p.h.key_id = named < 8 ? pu_id(kn(named)) : pu_id("nope");
                    p.h.keystore_id = prov ? KSID : KSID ^ 2;
                    pu_rehash(&p);
                    char pem[60];
                    sprintf(pem, "%s.pem", base[signer]);
                    pu_sign(&p, pu_key(pem));
                    pu_save(&p, W);
                    bool in = set == 0;
                    for (int i = 0; set == 1 && i < 4; i++) in |= seq[i] == named;
                    bool ok = prov && named == signer && in;
                    mc_case("package signed with %s, naming key %s, %s provider, keystore variant %d", base[signer], named < 8 ? base[named] : "(unknown)", prov ? "right" : "wrong", set);
                    int rc = tool(NULL, "verify", W, "--keystore", K, NULL);
                    MC_CHECK(!rc == ok, "verify exits %d", rc);
                    mc_eval(1);
                    mc_state(mc_hash(&p.h, 4096, set));
                    pu_free(&p);
                    pu_free(&ks);
                }
}
/* ---- keystores built with the tool ---- */
static void built_by_tool(void)
{
    for (int a = 0; a < 8; a++)
        for (int b = 0; b < 8; b++) {
            if (a == b || !mc_mine()) continue;
            char f[2][60];
            sprintf(f[0], "%s.pub.%s", base[a], a & 1 ? "der" : "pem");
            sprintf(f[1], "%s.pub.%s", base[b], b & 1 ? "pem" : "der");
            mc_case("keystore made by the tool with %s and %s", base[a], base[b]);
            unlink(K);
            int rc = tool(NULL, "create", K, NULL);
            rc |= tool(NULL, "add", K, "--meta", "bpak-package", "--from-string", "0123abcd-4567-89ab-cdef-0123456789ab", "--encoder", "uuid", NULL);
            rc |= tool(NULL, "add", K, "--meta", "keystore-provider-id", "--from-string", "the-store", "--encoder", "id", NULL);
            rc |= tool(NULL, "add", K, "--part", kn(a), "--from-file", pu_key(f[0]), "--encoder", "key", NULL);
            rc |= tool(NULL, "add", K, "--part", kn(b), "--from-file", pu_key(f[1]), "--encoder", "key", NULL);
            MC_CHECK(rc == 0, "building the keystore fails");
            uint32_t id = pu_id("the-store");
            expect_key(id, pu_id(kn(a)), a, true);
            expect_key(id, pu_id(kn(b)), b, true);
            expect_key(id, pu_id("zz"), b, false);
            expect_key(KSID, pu_id(kn(a)), a, false);
            /* another key under an existing name is refused and changes nothing */
            rc = tool(NULL, "add", K, "--part", kn(a), "--from-file", pu_key(f[1]), "--encoder", "key", NULL);
            MC_CHECK(rc, "a second key under the same id is accepted");
            expect_key(id, pu_id(kn(a)), a, true);
            rc = tool(NULL, "delete", K, "--part", kn(a), NULL);
            MC_CHECK(rc == 0, "delete exits %d", rc);
            expect_key(id, pu_id(kn(a)), a, false);
            expect_key(id, pu_id(kn(b)), b, true);
        }
}
int mc_run(void)
{
    pu_inproc = true;
    pu_fill(R, sizeof R, 31);
    strcpy(K, mc_path("ks")); strcpy(W, mc_path("w")); strcpy(O, mc_path("o")); strcpy(SRC, mc_path("gen.c")); strcpy(SO, mc_path("gen.so")); strcpy(KF, mc_path("kf"));
    for (int k = 0; k < 8; k++) {
        char f[60];
        sprintf(f, "%s.pub.der", base[k]);
        der[k] = mc_read_file(pu_key(f), &dl[k]);
        sprintf(f, k == 3 ? "%s.pkcs1.pub.der" : "%s.pub.pem", base[k]);
        alt[k] = mc_read_file(pu_key(f), &al[k]);
        if (k != 3) alt[k][al[k]++] = 0; /* PEM text with its terminator */
    }
    in_memory();
    many_keys();
    close_ids();
    callback();
    surroundings();
    names();
    damaged();
    built_by_tool();
    verify();
    sequences();
    return 0;
}
