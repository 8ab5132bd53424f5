/* C12: malformed archives through every operation of the library and the tool. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/verify.h>
#include <bpak/utils.h>
#include <bpak/transport.h>
#include <stddef.h>
#include <unistd.h>

static uint8_t R[20000];
#define NB 3
static const char *bn[NB] = {"rich", "keystore", "delta"};
static struct pu B[NB], ORG;
static char F[300], W[300], X[300], GOOD[300], ORGF[300], KS[300], OUT[300], SRC[300], SIG[300];

static void rich(struct pu *p)
{
    pu_init(p, 1);
    pu_uuid(p, 1);
    pu_meta(p, pu_id("bpak-version"), 0, "1.0.0", 6);
    pu_meta(p, pu_id("text"), 0, "hello", 6);
    pu_part(p, pu_id("data"), R, 700, 0);
    pu_merkle_parts(p, "fs", R + 50, 5000, 0, 7);
    pu_part(p, pu_id("excl"), R + 99, 100, 1);
    uint32_t v = pu_id("ks");
    pu_meta(p, pu_id("keystore-provider-id"), 0, &v, 4);
    uint8_t dep[24];
    memcpy(dep, R, 24);
    pu_meta(p, pu_id("bpak-dependency"), 0, dep, 24);
    uint64_t la = 0x80000000;
    pu_meta(p, pu_id("pb-load-addr"), pu_id("data"), &la, 8);
    pu_transport(p, pu_id("data"), "bsdiff", "bspatch");
    pu_transport(p, pu_tree_id(pu_id("fs")), "remove-data", "merkle-generate");
    p->h.key_id = pu_id("k1");
    p->h.keystore_id = pu_id("ks");
    pu_rehash(p);
    pu_sign(p, pu_key("p256-a.pem"));
}
static void keystore(struct pu *p)
{
    size_t n;
    uint8_t *b;
    pu_init(p, 1);
    pu_uuid(p, 9);
    uint32_t v = pu_id("ks");
    pu_meta(p, pu_id("keystore-provider-id"), 0, &v, 4);
    b = mc_read_file(pu_key("p256-a.pub.der"), &n); pu_part(p, pu_id("k1"), b, n, 0); free(b);
    b = mc_read_file(pu_key("p521-a.pub.der"), &n); pu_part(p, pu_id("k2"), b, n, 0); free(b);
    p->h.key_id = pu_id("k1");
    p->h.keystore_id = pu_id("ks");
    pu_rehash(p);
    pu_sign(p, pu_key("p256-a.pem"));
}
static void origin(struct pu *p)
{
    pu_init(p, 1);
    pu_uuid(p, 1);
    pu_part(p, pu_id("data"), R + 3, 650, 0);
    pu_merkle_parts(p, "fs", R + 52, 4900, 0, 5);
    pu_rehash(p);
}
static int dec(const char *in, const char *out, const char *org, bool enc)
{
    static struct bpak_package i, o, g;
    int rc;
    if ((rc = bpak_pkg_open(&i, in, "rb"))) return rc;
    if ((rc = bpak_pkg_open(&o, out, "wb+"))) mc_die("cannot create output");
    if (org && (rc = bpak_pkg_open(&g, org, "rb"))) { bpak_pkg_close(&i); bpak_pkg_close(&o); return rc; }
    rc = enc ? bpak_pkg_transport_encode(&i, &o, org ? &g : NULL) : bpak_pkg_transport_decode(&i, &o, org ? &g : NULL);
    mc_trans(1);
    bpak_pkg_close(&i); bpak_pkg_close(&o);
    if (org) bpak_pkg_close(&g);
    return rc;
}
/* reference validity: every slot counts */
static bool valid_ref(const struct bpak_header *h)
{
    if (h->magic != 0x42504132) return false;
    for (int i = 0; i < 32; i++) {
        if (h->parts[i].id && (h->parts[i].size + h->parts[i].pad_bytes) % 512) return false;
        if (h->meta[i].id && h->meta[i].size + h->meta[i].offset > 1920) return false;
    }
    return true;
}
struct mem { const uint8_t *d; size_t n; };
static ssize_t rdm(off_t off, uint8_t *b, size_t n, void *u)
{
    struct mem *m = u;
    if (off < 0 || (uint64_t)off > m->n) return -BPAK_READ_ERROR;
    if (n > m->n - off) n = m->n - off;
    memcpy(b, m->d + off, n);
    return n;
}
/* header level operations in this process; the header sits in its own heap block */
static bool lib_header(const struct bpak_header *src, const uint8_t *data, size_t len)
{
    struct bpak_header *h = malloc(sizeof *h);
    *h = *src;
    int rc = bpak_valid_header(h);
    mc_trans(1);
    MC_CHECK(!memcmp(h, src, 4096), "validating the header changed it");
    bool vr = valid_ref(src);
    if (rc == 0) MC_CHECK(vr, "a header with misaligned parts, metadata outside the area or bad magic is accepted as valid");
    if (rc) { free(h); return false; }
    struct mem *m = malloc(sizeof *m);
    m->d = data; m->n = len;
    uint8_t hash[64];
    size_t hs = sizeof hash;
    bpak_verify_payload(h, rdm, 0, m);
    bpak_verify_compute_header_hash(h, hash, &hs);
    hs = sizeof hash;
    bpak_verify_compute_payload_hash(h, rdm, 0, m, hash, &hs);
    char *s = malloc(128);
    bpak_foreach_meta(h, q) if (q->id) { bpak_meta_to_string(h, q, s, 128); bpak_meta_to_string(h, q, s, 9); }
    bpak_foreach_part(h, q) if (q->id) {
        bpak_part_size(q); bpak_part_offset(h, q); bpak_part_size_wo_pad(q);
    }
    size_t sz = 512;
    uint8_t *sig = malloc(sz);
    bpak_copyz_signature(h, sig, &sz);
    free(sig);
    *h = *src;
    for (int i = 0; i < 32; i++) { /* delete each entry, last first and first first */
        int k = i % 2 ? 31 - i / 2 : i / 2;
        struct bpak_part_header *p;
        struct bpak_meta_header *q;
        if (h->parts[k].id) bpak_del_part(h, &h->parts[k]);
        if (h->meta[k].id) bpak_del_meta(h, &h->meta[k]);
        bpak_add_part(h, 77 + i, &p);
        if (!bpak_add_meta(h, 77 + i, 0, 100, &q))
            MC_CHECK(q->offset + q->size <= 1920, "new metadata outside the metadata area (offset %u size %u)", q->offset, q->size);
    }
    free(s); free(m); free(h);
    mc_trans(70);
    mc_eval(1);
    return true;
}
static void put_file(const char *path, const struct bpak_header *h, const uint8_t *d, size_t n)
{
    struct pu t;
    t.h = *h; t.data = (uint8_t *)d; t.len = n;
    pu_save(&t, path);
}
static void lib_file(const struct bpak_header *h, const uint8_t *d, size_t n)
{
    static struct bpak_package p;
    static const char *ids[] = {"data", "fs", "excl", "k1", "k2"};
    put_file(F, h, d, n);
    if (!bpak_pkg_open(&p, F, "rb")) {
        bpak_pkg_size(&p); bpak_pkg_installed_size(&p);
        bpak_pkg_update_hash(&p, NULL, NULL);
        for (int i = 0; i < 5; i++) { uint8_t o[32]; bpak_pkg_part_sha256(&p, o, 32, pu_id(ids[i])); }
        bpak_pkg_close(&p);
        mc_trans(8);
    }
    struct bpak_key *k = NULL;
    if (!bpak_keystore_load_key_from_file(F, pu_id("ks"), pu_id("k1"), NULL, NULL, &k)) bpak_free(k);
    k = NULL;
    if (!bpak_keystore_load_key_from_file(F, pu_id("ks"), pu_id("k2"), NULL, NULL, &k)) bpak_free(k);
    dec(F, X, ORGF, false);
    for (int i = 0; i < 5; i++) {
        if (!bpak_pkg_open(&p, F, "rb+")) { bpak_pkg_delete_part(&p, pu_id(ids[i]), i & 1); bpak_pkg_close(&p); }
        put_file(F, h, d, n);
    }
    mc_eval(1);
}
/* ---- tool ---- */
static int op(int k)
{
    /* F holds the file; operations that may change it work on a copy W */
    const char *pk = pu_key("p256-a.pub.pem"), *sk = pu_key("p256-a.pem");
    size_t n;
    if (k >= 16) { uint8_t *b = mc_read_file(F, &n); mc_write_file(W, b, n); free(b); }
    switch (k) {
    case 0: return tool("", "show", F, NULL);
    case 1: return tool("", "show", F, "-v", NULL);
    case 2: return tool("", "show", "--hash", F, NULL);
    case 3: return tool("", "show", "--binary-hash", F, NULL);
    case 4: return tool("", "show", "--part-hash", "data", F, NULL);
    case 5: return tool("", "show", "--meta", "bpak-package", F, NULL);
    case 6: return tool("", "verify", F, "--key", pk, NULL);
    case 7: return tool("", "verify", F, "--keystore", KS, NULL);
    case 8: return tool("", "verify", GOOD, "--keystore", F, NULL);
    case 9: return tool("", "extract", F, "--part", "data", "--output", X, NULL);
    case 10: return tool("", "extract", F, "--meta", "text", "--output", X, NULL);
    case 11: return tool("", "compare", F, GOOD, NULL);
    case 12: return tool("", "compare", GOOD, F, NULL);
    case 13: return tool("", "generate", "keystore", "--name", "a", F, NULL);
    case 14: return tool("", "transport", F, "--decode", "--origin", ORGF, "--output", X, NULL);
    case 15: return tool("", "transport", F, "--encode", "--origin", ORGF, "--output", X, NULL);
    case 16: return tool("", "set", W, "--key-id", "abc", NULL);
    case 17: return tool("", "set", W, "--meta", "text", "--from-string", "a longer text than before", NULL);
    case 18: return tool("", "set", W, "--meta", "bpak-version", "--from-string", "1", "--encoder", "integer", NULL);
    case 19: return tool("", "delete", W, "--part", "data", NULL);
    case 20: return tool("", "delete", W, "--part", "fs", "--keep-meta", NULL);
    case 21: return tool("", "delete", W, "--all", NULL);
    case 22: return tool("", "add", W, "--part", "new", "--from-file", SRC, NULL);
    case 23: return tool("", "add", W, "--part", "new", "--from-file", SRC, "--encoder", "merkle", NULL);
    case 24: return tool("", "add", W, "--meta", "newm", "--from-string", "xyz", NULL);
    case 25: return tool("", "sign", W, "--key", sk, NULL);
    case 26: return tool("", "sign", W, "--signature", SIG, NULL);
    case 27: return tool("", "transport", W, "--add", "--part", "fs", "--encoder", "bsdiff", "--decoder", "bspatch", NULL);
    case 28: return tool("", "transport", "/dev/null", "--decode", "--origin", W, "--output", X, NULL);
    case 29: return tool("", "transport", GOOD, "--encode", "--origin", W, "--output", X, NULL);
    case 30: return tool("", "transport", W, "--decode", "--output", X, NULL);
    case 31: return tool("", "verify", F, "--key", pu_key("rsa4096-a.pub.der"), NULL);
    }
    mc_die("no such operation");
}
static bool refuse_all; /* the file lacks the archive magic */
static uint32_t opmask = ~0u;
static void run_ops(int *res)
{
    for (int k = 0; k < 32; k++)
        if (opmask >> k & 1) res[k] = op(k);
}
static void ops(void)
{
    int res[32];
    tool_batch(run_ops, res, 32);
    for (int k = 0; k < 32; k++) {
        if (!(opmask >> k & 1)) continue;
        mc_eval(1); mc_trans(1);
        mc_distinct(mc_hash(&res[k], 4, k));
        if (refuse_all && k != 28) MC_CHECK(res[k] != 0, "operation %d succeeds on a file without the archive magic", k);
    }
}
static void full(int b, const struct bpak_header *h, const uint8_t *d, size_t n)
{
    refuse_all = h->magic != 0x42504132;
    if (b == 1) { /* as keystore, as archive */
        opmask = 1u << 0 | 1u << 2 | 1u << 6 | 1u << 8 | 1u << 13 | 1u << 11 | 1u << 21 | 1u << 31;
    } else if (b == 2)
        opmask = 1u << 1 | 1u << 6 | 1u << 9 | 1u << 11 | 1u << 12 | 1u << 14 | 1u << 15 | 1u << 19 | 1u << 20 | 1u << 22 | 1u << 23 | 1u << 30;
    else
        opmask = ~0u;
    put_file(F, h, d, n);
    ops();
}
/* ---- structured mutations ---- */
struct fld { size_t off; int w; };
static void setf(struct bpak_header *h, struct fld f, uint64_t v) { memcpy((uint8_t *)h + f.off, &v, f.w); }
static uint64_t getf(const struct bpak_header *h, struct fld f) { uint64_t v = 0; memcpy(&v, (const uint8_t *)h + f.off, f.w); return v; }
#define MF(i, name) ((struct fld){offsetof(struct bpak_header, meta) + 16 * (i) + offsetof(struct bpak_meta_header, name), sizeof(((struct bpak_meta_header *)0)->name)})
#define PF(i, name) ((struct fld){offsetof(struct bpak_header, parts) + 32 * (i) + offsetof(struct bpak_part_header, name), sizeof(((struct bpak_part_header *)0)->name)})
#define HF(name) ((struct fld){offsetof(struct bpak_header, name), sizeof(((struct bpak_header *)0)->name)})
static struct bpak_header H;
static int cur;
static void go(const char *what)
{
    if (!mc_mine()) return;
    mc_case("%s archive, %s", bn[cur], what);
    mc_state(mc_hash(&H, 4096, cur));
    bool v = lib_header(&H, B[cur].data, B[cur].len);
    lib_file(&H, B[cur].data, B[cur].len);
    static int rej;
    if (v || mc_thorough || rej++ % 16 == 0) full(cur, &H, B[cur].data, B[cur].len);
}
static void single(struct fld f, uint64_t v, const char *what, int slot)
{
    H = B[cur].h;
    if (getf(&H, f) == v) return;
    setf(&H, f, v);
    char t[200];
    snprintf(t, sizeof t, "%s of slot %d = 0x%llx", what, slot, (unsigned long long)v);
    go(t);
}
static void two(struct fld f, uint64_t v, struct fld g, uint64_t w, const char *what, int slot)
{
    H = B[cur].h;
    setf(&H, f, v);
    setf(&H, g, w);
    char t[200];
    snprintf(t, sizeof t, "%s of slot %d = 0x%llx, 0x%llx", what, slot, (unsigned long long)v, (unsigned long long)w);
    go(t);
}
static void structured(int b)
{
    static const uint64_t V64[] = {0, 1, 511, 512, 1024, 4095, 4096, 4608, 8192, 1 << 20, 1u << 31, 1ull << 32, 1ull << 40, 1ull << 62, 1ull << 63, -1ull, -512ull, -1024ull, -4096ull, -8192ull, -4608ull};
    static const uint64_t V16[] = {0, 1, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 511, 512, 1024, 1888, 1904, 1912, 1919, 1920, 1921, 2048, 0x7fff, 0x8000, 0xfff8, 0xffff};
    static const uint64_t V8[] = {0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xfe, 0xff};
    static const uint64_t FL[] = {0, 1, 2, 3, 4, 0xff};
    cur = b;
    int np = 0, nm = 0;
    while (B[b].h.parts[np].id) np++;
    while (B[b].h.meta[nm].id) nm++;
#define EACH(i, A) for (unsigned i = 0; i < sizeof A / sizeof *A; i++)
    H = B[b].h; go("unmodified");
    EACH(i, V8) { single(HF(hash_kind), V8[i], "hash kind", 0); single(HF(signature_kind), V8[i], "signature kind", 0); }
    EACH(i, V16) { single(HF(signature_sz), V16[i], "signature size", 0); single(HF(alignment), V16[i], "alignment", 0); }
    single(HF(magic), 0, "magic", 0); single(HF(magic), 0x32415042, "magic", 0); single(HF(magic), -1, "magic", 0);
    for (int i = 0; i < 32; i++) single(HF(magic), 0x42504132 ^ 1u << i, "magic", 0);
    EACH(i, V64) { single(HF(key_id), V64[i] & 0xffffffff, "key id", 0); single(HF(keystore_id), V64[i] & 0xffffffff, "keystore id", 0); }
    single(HF(key_id), pu_id("k2"), "key id", 0);
    for (int s = 0; s < np; s++) {
        uint64_t cs = B[b].h.parts[s].size, cp = B[b].h.parts[s].pad_bytes;
        EACH(i, V64) {
            single(PF(s, size), V64[i] - cp, "part size (total)", s);
            single(PF(s, transport_size), V64[i], "transport size", s);
            single(PF(s, offset), V64[i], "part offset", s);
            EACH(k, FL) two(PF(s, flags), FL[k], PF(s, transport_size), V64[i], "flags, transport size", s);
            two(PF(s, size), V64[i], PF(s, pad_bytes), (512 - V64[i] % 512) % 512, "size, pad", s);
            two(PF(s, size), V64[i], PF(s, pad_bytes), 0xfe00 + (512 - V64[i] % 512) % 512, "size, pad", s);
        }
        EACH(i, V16) {
            single(PF(s, pad_bytes), V16[i], "pad", s);
            two(PF(s, size), 512 - V16[i], PF(s, pad_bytes), V16[i], "size, pad", s);
        }
        EACH(i, V8) single(PF(s, flags), V8[i], "flags", s);
        (void)cs;
        static const char *names[] = {"data", "fs", "k1", "k2", "excl"};
        single(PF(s, id), 0, "part id", s);
        for (int i = 0; i < 5; i++) { single(PF(s, id), pu_id(names[i]), "part id", s); single(PF(s, id), pu_tree_id(pu_id(names[i])), "part id", s); }
        /* a hole, and an invalid entry after it */
        for (int t = s + 1; t < np; t++) two(PF(s, id), 0, PF(t, size), B[b].h.parts[t].size + 1, "part id, size of a later slot", s);
    }
    for (int s = 0; s < nm; s++) {
        EACH(i, V16) {
            single(MF(s, size), V16[i], "metadata size", s);
            single(MF(s, offset), V16[i], "metadata offset", s);
            two(MF(s, size), V16[i], MF(s, offset), 1920 - V16[i], "metadata size, offset", s);
            two(MF(s, size), V16[i], MF(s, offset), 1921 - V16[i], "metadata size, offset", s);
            two(MF(s, size), V16[i], MF(s, offset), 65536 - V16[i], "metadata size, offset", s);
        }
        static const char *mids[] = {"bpak-package", "bpak-version", "bpak-dependency", "merkle-salt", "merkle-root-hash", "bpak-transport", "keystore-provider-id", "pb-load-addr", "bpak-key-id", "text"};
        for (int i = 0; i < 10; i++) {
            single(MF(s, id), pu_id(mids[i]), "metadata id", s);
            EACH(k, V8) if (V8[k] < 6) {
                two(MF(s, id), pu_id(mids[i]), MF(s, size), V8[k], "metadata id, size", s);
                H = B[b].h;
                setf(&H, MF(s, id), pu_id(mids[i])); setf(&H, MF(s, size), V8[k]); setf(&H, MF(s, offset), 1920 - V8[k]); setf(&H, MF(s, part_id_ref), 0);
                char t[100];
                snprintf(t, sizeof t, "slot %d becomes %s of %d bytes at the end of the area", s, mids[i], (int)V8[k]);
                go(t);
            }
        }
        single(MF(s, id), 0, "metadata id", s);
        single(MF(s, part_id_ref), 0, "part reference", s);
        single(MF(s, part_id_ref), pu_id("data"), "part reference", s);
        single(MF(s, part_id_ref), pu_id("fs"), "part reference", s);
        for (int t = s + 1; t < nm; t++) two(MF(s, id), 0, MF(t, size), 1921, "metadata id, size of a later slot", s);
    }
    /* fill the tables */
    for (int n = 30; n <= 32; n++) {
        H = B[b].h;
        for (int i = nm; i < n; i++) { H.meta[i].id = 500 + i; H.meta[i].size = 8; H.meta[i].offset = 1912; }
        for (int i = np; i < n; i++) { H.parts[i].id = 500 + i; H.parts[i].size = 0; }
        go("tables filled");
        H.parts[n - 1].size = 3;
        go("tables filled, last part misaligned");
        H.parts[n - 1].size = 0;
        H.meta[n - 1].size = 9;
        go("tables filled, last metadata outside");
        H.meta[n - 1].size = 8;
        H.meta[n - 1].id = 0; H.meta[31].id = 9; H.meta[31].offset = 65000;
        go("tables filled, hole, metadata outside");
    }
}
static void bytes(int b)
{
    cur = b;
    for (int off = 0; off < 4096; off++)
        for (int k = 0; k < (mc_thorough ? 13 : 6); k++) {
            static const uint8_t bv[] = {0, 0xff, 0x7f, 0x80};
            H = B[b].h;
            uint8_t *q = (uint8_t *)&H + off, old = *q;
            if (k < 4) *q = bv[k];
            else if (k < 12) *q ^= 1 << (k - 4);
            else *q += 1;
            if (*q == old) continue;
            if (!mc_mine()) continue;
            mc_case("%s archive, header byte %d = %02x", bn[b], off, *q);
            bool v = lib_header(&H, B[b].data, B[b].len);
            if (v && (off < 1544 || off >= 3464)) {
                lib_file(&H, B[b].data, B[b].len);
                if (mc_thorough) full(b, &H, B[b].data, B[b].len);
            }
        }
}
static void truncations(int b)
{
    size_t tot = 4096 + B[b].len;
    uint8_t *img = malloc(tot + 5000);
    memcpy(img, &B[b].h, 4096);
    memcpy(img + 4096, B[b].data, B[b].len);
    memset(img + tot, 0x5a, 5000);
    for (size_t n = 0; n <= tot + 4600; n++) {
        bool tl = n < 6 || n % 512 < 2 || n % 512 == 511 || (n > tot - 3 && n < tot + 3);
        if (!mc_thorough && !tl && n % 7) continue;
        if (mc_thorough && n > 4200 && !tl && n % 3) continue;
        if (!mc_mine()) continue;
        mc_case("%s archive cut or extended to %zu bytes", bn[b], n);
        mc_write_file(F, img, n);
        static struct bpak_package p;
        int rc = bpak_pkg_open(&p, F, "rb");
        MC_CHECK((rc == 0) == (n >= 4096), "opening returned %d", rc);
        if (!rc) bpak_pkg_close(&p);
        for (int i = 0; i < 2; i++) {
            rc = bpak_pkg_open(&p, F, "rb+");
            if (n && n < 4096) MC_CHECK(rc, "a file of %zu bytes was opened as an archive", n);
            if (!rc) { bpak_pkg_delete_part(&p, pu_id(i ? "data" : "fs"), true); bpak_pkg_close(&p); }
            mc_write_file(F, img, n);
        }
        struct bpak_key *k = NULL;
        if (!bpak_keystore_load_key_from_file(F, pu_id("ks"), pu_id("k2"), NULL, NULL, &k)) bpak_free(k);
        rc = dec(F, X, ORGF, false);
        if (n < tot) MC_CHECK(rc, "decoding the truncated package succeeds");
        rc = dec(F, X, ORGF, true);
        mc_eval(4); mc_trans(4);
        if (tl) {
            refuse_all = n && n < 4096;
            opmask = b ? 0x11111111u << n % 4 : ~0u;
            mc_write_file(F, img, n);
            ops();
        }
    }
    free(img);
}
static void junk(void)
{
    /* not archives at all */
    static uint8_t z[9000];
    for (int k = 0; k < 12; k++)
        for (int s = 0; s < 6; s++) {
            static const size_t sz[] = {1, 4, 100, 4095, 4096, 9000};
            if (!mc_mine()) continue;
            mc_case("non-archive %d of %zu bytes", k, sz[s]);
            memset(z, k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? 'A' : 0, sizeof z);
            if (k == 3) pu_fill(z, sizeof z, 4);
            if (k == 4) memcpy(z, "\x7f""ELF", 4);
            if (k == 5) memcpy(z, "BPA2", 4);
            if (k == 6) memcpy(z, "2APB", 4), z[0] ^= 1;
            if (k == 7) { memcpy(z + 1, &B[0].h, 4096); }
            if (k == 8) { memcpy(z, &B[0].h, 4096); z[3] = 0; }
            if (k == 9) memset(z, '\n', sizeof z);
            if (k == 10) { uint8_t *b; size_t n; b = mc_read_file(pu_key("p256-a.pem"), &n); memcpy(z, b, n); free(b); }
            if (k == 11) { memcpy(z + 512, &B[0].h, 4096); }
            mc_write_file(F, z, sz[s]);
            refuse_all = true;
            opmask = ~0u;
            ops();
        }
}
int mc_run(void)
{
    pu_fill(R, sizeof R, 31);
    pu_fsize = 64ul << 20;
    strcpy(F, mc_path("f")); strcpy(W, mc_path("w")); strcpy(X, mc_path("x")); strcpy(GOOD, mc_path("good")); strcpy(ORGF, mc_path("org"));
    strcpy(KS, mc_path("ks")); strcpy(OUT, mc_path("out")); strcpy(SRC, mc_path("src")); strcpy(SIG, mc_path("sig"));
    rich(&B[0]); keystore(&B[1]); origin(&ORG);
    pu_save(&B[0], GOOD); pu_save(&B[1], KS); pu_save(&ORG, ORGF);
    mc_write_file(SRC, R, 700); mc_write_file(SIG, R, 70);
    if (dec(GOOD, F, ORGF, true)) mc_fail("encoding the intact archive fails");
    if (!pu_load(&B[2], F)) mc_die("load");
    for (int b = 0; b < NB; b++) structured(b);
    for (int b = 0; b < NB; b++) bytes(b);
    for (int b = 0; b < NB; b++) truncations(b);
    junk();
    return 0;
}
