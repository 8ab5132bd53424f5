/* C29: archives and encoded streams have exactly the documented format, in both directions.
 *
 * The byte positions below are written down from the documentation, nothing here uses the
 * layout of the library's structures: whatever the library is told by the name of a field must
 * be found at the documented place of the file, and the other way round. Encoded streams made by
 * other conforming encoders must decode, and the library's own must decode with independent
 * decoders. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/id.h>
#include <bpak/crypto.h>
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>
#include <bpak/transport.h>
#include <bpak/utils.h>
#include <lzma.h>
#include <unistd.h>

/* ---- the documented layout ---- */
enum { META = 8, PART = 520, DATA = 1544, HK = 3464, SK = 3465, AL = 3466, PH = 3468, KEY = 3532, KS = 3536, PAD1 = 3540, SIG = 3582, SIGSZ = 4094, HDR = 4096 };
static void p16(uint8_t *b, unsigned v) { b[0] = v; b[1] = v >> 8; }
static void p32(uint8_t *b, uint32_t v) { p16(b, v); p16(b + 2, v >> 16); }
static void p64(uint8_t *b, uint64_t v) { p32(b, v); p32(b + 4, v >> 32); }
static uint64_t g(const uint8_t *b, int n) { uint64_t v = 0; while (n--) v = v << 8 | b[n]; return v; }
static void rmeta(uint8_t *h, int i, uint32_t id, unsigned size, unsigned off, uint32_t ref)
{
    uint8_t *m = h + META + 16 * i;
    p32(m, id); p16(m + 4, size); p16(m + 6, off); p32(m + 8, ref);
}
static void rpart(uint8_t *h, int i, uint32_t id, uint64_t size, uint64_t off, uint64_t ts, unsigned pad, int flags)
{
    uint8_t *m = h + PART + 32 * i;
    p32(m, id); p64(m + 4, size); p64(m + 12, off); p64(m + 20, ts); p16(m + 28, pad); m[30] = flags;
}
static void rinit(uint8_t *h, int hk, int sk)
{
    memset(h, 0, HDR);
    memcpy(h, "2APB", 4);
    h[HK] = hk; h[SK] = sk;
    p16(h + AL, 512);
}
static uint8_t R[65536], W[HDR];
static char F[300], G[300], O[300];

static void eq(const uint8_t *a, const uint8_t *b, size_t n, const char *what)
{
    for (size_t i = 0; i < n; i++) MC_CHECK(a[i] == b[i], "%s: byte %zu is %02x, expected %02x", what, i, a[i], b[i]);
}
static uint64_t pat(int k, int i, int f, uint64_t mask)
{
    uint64_t v = 0;
    for (int j = 0; j < 8; j++) v = v << 8 | R[(k * 4099 + i * 131 + f * 17 + j * 3) & 0xffff];
    if (k == 1) v |= 0x8080808080808080ull;
    if (k == 2) v = 0x0102030405060708ull * (i % 7 + 1) + f;
    return v & mask;
}
/* one full header, by bytes and by names; which: tables used up to n entries */
struct fields { uint32_t mid[32], mref[32], pid[32]; unsigned ms[32], mo[32], pp[32]; uint64_t ps[32], po[32], pt[32]; int pf[32]; uint32_t key, ks; };
static struct fields T;
static void make(int k, int nm, int np, int hk, int sk)
{
    rinit(W, hk, sk);
    memset(&T, 0, sizeof T);
    for (int i = 0; i < 32; i++) {
        if (i < nm) {
            T.mid[i] = (uint32_t)pat(k, i, 1, 0xffffff80u) | (i << 1) | 1; T.mref[i] = i % 3 ? (uint32_t)pat(k, i, 2, 0xffffffffu) : 0;
            T.ms[i] = k == 3 ? (i == 31 ? 1920 - 256 : 0) : 1 + (i * 7 + k) % 57; T.mo[i] = k == 3 ? 256 : (i * 60) & ~7;
            rmeta(W, i, T.mid[i], T.ms[i], T.mo[i], T.mref[i]);
        }
        if (i < np) {
            T.pid[i] = (uint32_t)pat(k, i, 3, 0xffffff80u) | (i << 1) | 1;
            T.ps[i] = k == 1 ? pat(k, i, 4, 0x7fffffffffffull) : pat(k, i, 4, 0xffffffull);
            T.pp[i] = (512 - T.ps[i] % 512) % 512;
            if (k == 3 && i % 2) { T.pp[i] += 512 * (i + 1); }
            T.po[i] = pat(k, i, 5, ~0ull); T.pt[i] = pat(k, i, 6, 0x7fffffffffffull); T.pf[i] = (i + k) % 4;
            rpart(W, i, T.pid[i], T.ps[i], T.po[i], T.pt[i], T.pp[i], T.pf[i]);
        }
    }
    for (int i = 0; i < 1920; i++) W[DATA + i] = R[i + 11 * k];
    for (int i = 0; i < 64; i++) W[PH + i] = R[5000 + i + k];
    T.key = (uint32_t)pat(k, 0, 7, ~0u); T.ks = (uint32_t)pat(k, 0, 8, ~0u);
    p32(W + KEY, T.key); p32(W + KS, T.ks);
    for (int i = 0; i < 512; i++) W[SIG + i] = R[6000 + i + 3 * k];
    p16(W + SIGSZ, k == 1 ? 512 : 71 + k);
}
static void compare(struct bpak_header *h)
{
    uint8_t ks = h->hash_kind;
    MC_CHECK(h->magic == 0x42504132u, "magic %x", h->magic);
    for (int i = 0; i < 32; i++) {
        struct bpak_meta_header *m = &h->meta[i];
        MC_CHECK(m->id == T.mid[i] && m->size == T.ms[i] && m->offset == T.mo[i] && m->part_id_ref == T.mref[i],
                 "metadata entry %d of the file is read as id %x size %u offset %u reference %x, expected %x %u %u %x", i, m->id, m->size, m->offset, m->part_id_ref, T.mid[i], T.ms[i], T.mo[i], T.mref[i]);
        if (m->id) {
            struct bpak_meta_header *q = NULL;
            MC_CHECK(bpak_get_meta(h, T.mid[i], T.mref[i], &q) == 0 && q == m, "metadata entry %d is not found", i);
            eq(bpak_get_meta_ptr(h, m, uint8_t), W + DATA + T.mo[i], T.ms[i], "metadata value");
        }
        struct bpak_part_header *p = &h->parts[i];
        MC_CHECK(p->id == T.pid[i] && p->size == T.ps[i] && p->offset == T.po[i] && p->transport_size == T.pt[i] && p->pad_bytes == T.pp[i] && p->flags == T.pf[i],
                 "part %d of the file is read as id %x size %lx offset %lx transport size %lx padding %u flags %x, expected %x %lx %lx %lx %u %x", i, p->id, p->size, p->offset, p->transport_size, p->pad_bytes, p->flags,
                 T.pid[i], T.ps[i], T.po[i], T.pt[i], T.pp[i], T.pf[i]);
        if (p->id) {
            struct bpak_part_header *q = NULL;
            uint64_t o = HDR;
            for (int j = 0; j < i; j++) if (T.pid[j]) o += T.pf[j] & 2 ? T.pt[j] : T.ps[j] + T.pp[j];
            MC_CHECK(bpak_get_part(h, T.pid[i], &q) == 0 && q == p, "part %d is not found", i);
            MC_CHECK((uint64_t)bpak_part_offset(h, p) == o, "part %d is at %lx, expected %lx", i, (long)bpak_part_offset(h, p), o);
            MC_CHECK(bpak_part_size(p) == (T.pf[i] & 2 ? T.pt[i] : T.ps[i] + T.pp[i]), "stored size of part %d", i);
        }
    }
    MC_CHECK(ks == W[HK] && h->signature_kind == W[SK] && h->alignment == 512, "kinds or alignment");
    MC_CHECK(h->key_id == T.key && h->keystore_id == T.ks, "key ids %x %x, expected %x %x", h->key_id, h->keystore_id, T.key, T.ks);
    MC_CHECK(h->signature_sz == g(W + SIGSZ, 2), "signature size %u", h->signature_sz);
    eq(h->payload_hash, W + PH, 64, "payload hash");
    eq(h->signature, W + SIG, 512, "signature");
    eq(h->metadata, W + DATA, 1920, "metadata area");
}
static void raw(const char *f, const uint8_t *h, const void *d, size_t n)
{
    uint8_t *b = malloc(HDR + n);
    memcpy(b, h, HDR);
    if (n) memcpy(b + HDR, d, n);
    mc_write_file(f, b, HDR + n);
    free(b);
}
static void headers(void)
{
    static struct bpak_package p;
    static const int N[] = {0, 1, 2, 17, 31, 32};
    for (int k = 0; k < (mc_thorough ? 40 : 12); k++)
        for (int a = 0; a < 6; a++)
            for (int b = 0; b < 6; b++)
                for (int hk = 1; hk <= 3; hk++) {
                    if (!mc_mine()) continue;
                    mc_case("header pattern %d with %d metadata entries, %d parts, hash kind %d", k, N[a], N[b], hk);
                    make(k, N[a], N[b], hk, 1 + (k + a) % 4);
                    mc_state(mc_hash(W, HDR, 0));
                    raw(F, W, "", 0);
                    /* from the file to the names */
                    MC_CHECK(bpak_pkg_open(&p, F, "rb") == 0, "a conforming header is refused");
                    struct bpak_header *h = bpak_pkg_header(&p);
                    MC_CHECK(bpak_valid_header(h) == 0, "a conforming header is invalid");
                    compare(h);
                    bpak_pkg_close(&p);
                    /* from the names to the file */
                    static struct bpak_header z;
                    rinit((uint8_t *)&z, 0, 0); /* only to create the file */
                    uint8_t n0[HDR];
                    memset(n0, 0, HDR);
                    memcpy(n0, "2APB", 4); n0[HK] = 1; p16(n0 + AL, 512);
                    raw(G, n0, "", 0);
                    MC_CHECK(bpak_pkg_open(&p, G, "rb+") == 0, "open for modification");
                    h = bpak_pkg_header(&p);
                    MC_CHECK(bpak_init_header(h) == 0, "init");
                    for (int i = 0; i < 32; i++) {
                        h->meta[i].id = T.mid[i]; h->meta[i].size = T.ms[i]; h->meta[i].offset = T.mo[i]; h->meta[i].part_id_ref = T.mref[i];
                        h->parts[i].id = T.pid[i]; h->parts[i].size = T.ps[i]; h->parts[i].offset = T.po[i]; h->parts[i].transport_size = T.pt[i];
                        h->parts[i].pad_bytes = T.pp[i]; h->parts[i].flags = T.pf[i];
                    }
                    memcpy(h->metadata, W + DATA, 1920);
                    h->hash_kind = hk; h->signature_kind = W[SK];
                    memcpy(h->payload_hash, W + PH, 64);
                    MC_CHECK(bpak_set_key_id(h, T.key) == 0 && bpak_set_keystore_id(h, T.ks) == 0, "setting the key ids");
                    uint8_t sig[512];
                    memcpy(sig, W + SIG, 512);
                    memcpy(h->signature, sig, 512);
                    h->signature_sz = g(W + SIGSZ, 2);
                    MC_CHECK(bpak_pkg_write_header(&p) == 0, "write");
                    bpak_pkg_close(&p);
                    size_t n;
                    uint8_t *f = mc_read_file(G, &n);
                    MC_CHECK(n == HDR, "the file has %zu bytes", n);
                    eq(f, W, HDR, "written header");
                    mc_trans(2); mc_eval(2);
                    mc_distinct(mc_hash(f, n, 0));
                    free(f);
                }
    /* table entries made with the interface: order, packing of the metadata area, transport metadata */
    for (int n = 0; n <= 32; n++)
        for (int s = 0; s < 60; s++) {
            if (!mc_mine()) continue;
            mc_case("%d entries of about %d bytes added with the interface", n, s);
            static struct bpak_header h;
            static uint8_t w[HDR];
            memset(&h, 0xa5, sizeof h);
            MC_CHECK(bpak_init_header(&h) == 0, "init");
            rinit(w, 1, 2);
            unsigned off = 0;
            for (int i = 0; i < n; i++) {
                struct bpak_meta_header *m = NULL;
                struct bpak_part_header *q = NULL;
                unsigned sz = (s + i * (s % 3)) % 60;
                if (s == 7) {
                    sz = 32;
                    MC_CHECK(bpak_add_transport_meta(&h, 0x500 + i, 0x11223344 + i, 0x99887766) == 0, "transport metadata");
                    p32(w + DATA + off, 0x11223344 + i); p32(w + DATA + off + 4, 0x99887766);
                    rmeta(w, i, 0x2d44bbfb, 32, off, 0x500 + i);
                } else {
                    if (!sz) sz = 1;
                    if (off + sz > 1920) break; /* C01 checks what happens then */
                    MC_CHECK(bpak_add_meta(&h, 0x1000 + i, i % 2 ? 0x80000000u + i : 0, sz, &m) == 0, "entry %d", i);
                    uint8_t *d = bpak_get_meta_ptr(&h, m, uint8_t);
                    for (unsigned j = 0; j < sz; j++) d[j] = w[DATA + off + j] = R[i * 64 + j];
                    rmeta(w, i, 0x1000 + i, sz, off, i % 2 ? 0x80000000u + i : 0);
                }
                off = (off + sz + 7) & ~7u;
                MC_CHECK(bpak_add_part(&h, 0x700 + i, &q) == 0, "part %d", i);
                q->size = 512 * (i + 1); q->flags = i % 2;
                rpart(w, i, 0x700 + i, 512 * (i + 1), 0, 0, 0, i % 2);
            }
            for (int i = 0; i < 32; i++) p64(w + PART + 32 * i + 12, h.parts[i].offset); /* C02 checks the offsets */
            eq((uint8_t *)&h, w, HDR, "header made with the interface");
            mc_eval(1); mc_trans(2 * n);
        }
}
/* ---- fixed numbers of the format ---- */
static void numbers(void)
{
    static const struct { uint32_t id; const char *n; } ID[] = {
        {0xfb2f1f3f, "bpak-package"}, {0x9a5bab69, "bpak-version"}, {0x2d44bbfb, "bpak-transport"}, {0x0ba87349, "bpak-dependency"},
        {0xb5bcc58f, "merkle-generate"}, {0x57004cd0, "remove-data"}, {0x9f7aacf9, "bsdiff"}, {0xb5964388, "bspatch"},
        {0xe31722a6, "heatshrink-encode"}, {0x5f9bc012, "heatshrink-decode"}, {0x1607e56e, "bsdiff-lzma"}, {0x933a9893, "bspatch-lzma"},
        {0x0a878e3e, "bsdiff-no-comp"}, {0x75622592, "bspatch-no-comp"}, {0x7c9b2f93, "merkle-salt"}, {0xe68fc9be, "merkle-root-hash"},
        {0xfb367d9a, "keystore-provider-id"}, {0xd1e64a4b, "pb-load-addr"}, {0x7da19399, "bpak-key-id"}, {0x106c13a7, "bpak-key-store"}};
    for (unsigned i = 0; i < sizeof ID / sizeof *ID; i++) {
        if (!mc_mine()) continue;
        mc_case("identifier of %s", ID[i].n);
        char o[40], w[64];
        size_t n;
        if (pu_id(ID[i].n) != ID[i].id) mc_die("table: %s is %x", ID[i].n, pu_id(ID[i].n));
        MC_CHECK(bpak_id(ID[i].n) == ID[i].id, "bpak_id gives %x, documented %x", bpak_id(ID[i].n), ID[i].id);
        (void)o;
        snprintf(w, sizeof w, "0x%x", ID[i].id);
        int rc = tool(O, "generate", "id", ID[i].n, NULL);
        char *b = (char *)mc_read_file(O, &n);
        b[n] = 0;
        MC_CHECK(rc == 0 && strstr(b, w + 2), "generate id (%d) prints '%.80s'", rc, b);
        free(b);
        mc_eval(1);
    }
}
/* ---- a complete archive assembled by bytes: every hash, key, with parts, keys and a hash tree ---- */
static void archive(int hk, int sk, int nparts, uint8_t **out, size_t *on)
{
    static const char *KEYS[] = {"", "rsa4096-a.pem", "p256-a.pem", "p384-a.pem", "p521-a.pem"};
    static uint8_t h[HDR], d[300000];
    size_t n = 0;
    static struct pu s; /* only for the primitives: signing */
    rinit(h, hk, sk);
    uint64_t off = HDR;
    for (int i = 0; i < nparts; i++) {
        size_t len = i == 0 ? 700 : i == 1 ? 8192 : i == 2 ? 4096 : 512 * i + i;
        size_t pad = (512 - len % 512) % 512;
        uint8_t *src = R + 97 * i, *tr = NULL;
        if (i == 2) { /* the hash tree of part 1 */
            uint8_t salt[32], root[32];
            for (int j = 0; j < 32; j++) salt[j] = 3 * j + hk;
            tr = pu_merkle(R + 97, 8192, salt, 32, &len, root);
            src = tr;
            pad = 0;
            memcpy(h + DATA, salt, 32); memcpy(h + DATA + 32, root, 32);
            rmeta(h, 0, 0x7c9b2f93, 32, 0, pu_id("fs")); rmeta(h, 1, 0xe68fc9be, 32, 32, pu_id("fs"));
        }
        rpart(h, i, i == 1 ? pu_id("fs") : i == 2 ? pu_tree_id(pu_id("fs")) : 0x4000u + i, len, off, 0, pad, i == 3 ? 1 : 0);
        memcpy(d + n, src, len);
        memset(d + n + len, 0, pad);
        n += len + pad;
        off += len + pad;
        free(tr);
    }
    memcpy(h + DATA + 64, "\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f", 16);
    rmeta(h, 2, 0xfb2f1f3f, 16, 64, 0);
    p32(h + KEY, 0x01020304); p32(h + KS, 0xa0b0c0d0);
    /* payload hash: all stored bytes of the parts that are not excluded */
    uint8_t dg[64], *cat = malloc(n + 1);
    size_t c = 0, at = 0;
    for (int i = 0; i < nparts; i++) {
        size_t st = g(h + PART + 32 * i + 4, 8) + g(h + PART + 32 * i + 28, 2);
        if (!(h[PART + 32 * i + 30] & 1)) { memcpy(cat + c, d + at, st); c += st; }
        at += st;
    }
    size_t dl = pu_digest(hk, cat, c, dg);
    memcpy(h + PH, dg, dl);
    free(cat);
    /* signature over the digest of the header with the signature fields cleared */
    pu_init(&s, hk);
    memcpy(&s.h, h, HDR);
    static char pem[300];
    strcpy(pem, pu_key(KEYS[sk]));
    pu_sign(&s, pem);
    /* the primitives work on the bytes: 514 bytes from SIG on are cleared, then signed */
    uint8_t *sg = (uint8_t *)&s.h;
    memcpy(h + SIG, sg + SIG, 514);
    *out = malloc(HDR + n);
    memcpy(*out, h, HDR);
    memcpy(*out + HDR, d, n);
    *on = HDR + n;
}
static void archives(void)
{
    static const char *PUBS[] = {"", "rsa4096-a.pub.der", "p256-a.pub.der", "p384-a.pub.der", "p521-a.pub.der"};
    for (int hk = 1; hk <= 3; hk++)
        for (int sk = 1; sk <= 4; sk++)
            for (int np = 0; np <= 8; np++) {
                if (np == 2) continue; /* a tree is needed */
                if (!mc_mine()) continue;
                mc_case("archive assembled by bytes: hash kind %d, signature kind %d, %d parts", hk, sk, np);
                uint8_t *a, *b;
                size_t n, m;
                static char pub[300];
                archive(hk, sk, np, &a, &n);
                mc_state(mc_hash(a, n, 1));
                mc_write_file(F, a, n);
                strcpy(pub, pu_key(PUBS[sk]));
                int rc = tool("", "verify", F, "--key", pub, NULL);
                MC_CHECK(rc == 0, "verification of a conforming archive returned %d", rc);
                size_t at = HDR;
                for (int i = 0; i < np; i++) {
                    char id[20];
                    sprintf(id, "0x%x", (unsigned)g(a + PART + 32 * i, 4));
                    unlink(O);
                    rc = tool("", "extract", F, "--part", id, "--output", O, NULL);
                    size_t sz = g(a + PART + 32 * i + 4, 8);
                    b = mc_read_file(O, &m);
                    MC_CHECK(rc == 0 && b && m == sz && !memcmp(b, a + at, sz), "extracting part %d (%d) does not give its data", i, rc);
                    free(b);
                    at += sz + g(a + PART + 32 * i + 28, 2);
                }
                /* a modification by the tool keeps everything else byte for byte */
                rc = tool("", "set", F, "--key-id", "0x55667788", NULL);
                b = mc_read_file(F, &m);
                MC_CHECK(rc == 0 && m == n, "set returned %d, %zu bytes", rc, m);
                p32(a + KEY, 0x55667788);
                for (size_t i = 0; i < n; i++) if (i < PH || i >= PH + 64) if (i < SIG || i >= HDR)
                    MC_CHECK(b[i] == a[i], "after set --key-id byte %zu is %02x, expected %02x", i, b[i], a[i]);
                free(b);
                /* adding a part appends a slot and the padded data */
                memcpy(a, a, 0);
                rc = tool("", "add", F, "--part", "last", "--from-file", O, NULL);
                if (np) {
                    uint8_t *src = mc_read_file(O, &m);
                    size_t pad = (512 - m % 512) % 512, k = m;
                    b = mc_read_file(F, &m);
                    MC_CHECK(rc == 0 && m == n + k + pad, "add returned %d, the file has %zu bytes", rc, m);
                    eq(b + HDR, a + HDR, n - HDR, "stored data after add");
                    eq(b + n, src, k, "data of the added part");
                    for (size_t i = 0; i < pad; i++) MC_CHECK(!b[n + k + i], "padding");
                    const uint8_t *q = b + PART + 32 * np;
                    MC_CHECK(g(q, 4) == pu_id("last") && g(q + 4, 8) == k && g(q + 28, 2) == pad && q[30] == 0, "part table entry of the added part: id %x size %lu padding %u flags %x", (unsigned)g(q, 4), (long)g(q + 4, 8), (unsigned)g(q + 28, 2), q[30]);
                    free(b);
                    free(src);
                }
                mc_eval(2 + np);
                free(a);
            }
    /* what create writes, all kinds */
    static const char *HN[] = {NULL, "sha256", "sha384", "sha512"}, *SN[] = {NULL, "rsa4096", "prime256v1", "secp384r1", "secp521r1"};
    for (int hk = 0; hk <= 3; hk++)
        for (int sk = 0; sk <= 4; sk++) {
            if (!mc_mine()) continue;
            mc_case("create, hash kind %s, signature kind %s", hk ? HN[hk] : "default", sk ? SN[sk] : "default");
            char *av[] = {"bpak", "create", F, "-Y", NULL, NULL, NULL, NULL, NULL};
            int k = 4;
            if (hk) { av[k++] = "--hash-kind"; av[k++] = (char *)HN[hk]; }
            if (sk) { av[k++] = "--signature-kind"; av[k++] = (char *)SN[sk]; }
            int rc = toolv("", av);
            uint8_t w[HDR], dg[64];
            rinit(w, hk ? hk : 1, sk ? sk : 2);
            memcpy(w + PH, dg, pu_digest(hk ? hk : 1, "", 0, dg));
            size_t n;
            uint8_t *b = mc_read_file(F, &n);
            MC_CHECK(rc == 0 && n == HDR, "create returned %d, %zu bytes", rc, n);
            eq(b, w, HDR, "created header");
            free(b);
            mc_eval(1);
        }
}
/* ---- encoded streams ---- */
enum { NONE, HS, LZ };
static const enum bpak_compression COMP[] = {BPAK_COMPRESSION_NONE, BPAK_COMPRESSION_HS, BPAK_COMPRESSION_LZMA};
static const uint32_t ENC[] = {0x0a878e3e, 0x9f7aacf9, 0x1607e56e}, DEC[] = {0x75622592, 0xb5964388, 0x933a9893};
struct out { uint8_t d[70000]; size_t n; };
static ssize_t ow(off_t off, uint8_t *b, size_t n, void *u)
{
    struct out *o = u;
    if (off < 0 || off + n > sizeof o->d) mc_fail("write of %zu bytes at %ld", n, (long)off);
    memcpy(o->d + off, b, n);
    if (off + n > o->n) o->n = off + n;
    return n;
}
/* heatshrink: a literal is 1 and 8 bits, a reference 0, 8 bits distance - 1, 7 bits length - 1 */
struct bits { uint8_t *o; size_t n; };
static void put(struct bits *b, unsigned v, int k) { while (k--) { if (b->n % 8 == 0) b->o[b->n / 8] = 0; if (v >> k & 1) b->o[b->n / 8] |= 0x80 >> b->n % 8; b->n++; } }
/* style 0: literals; 1: longest reference to the nearest match; 2: references of two bytes and more, every second literal; 3: farthest match, shortened */
static size_t hs_encode(const uint8_t *d, size_t n, int style, uint8_t *o)
{
    struct bits b = {o, 0};
    for (size_t i = 0; i < n; ) {
        size_t best = 0, dist = 0;
        if (style)
            for (size_t k = 1; k <= 256 && (k <= i || style == 3); k++) {
                size_t l = 0;
                while (l < 128 && i + l < n && (i + l >= k ? d[i + l - k] : 0) == d[i + l]) l++;
                if (style == 3 ? l >= 1 && l >= best : l > best) { best = l; dist = k; }
            }
        if (best >= (style == 3 ? 1 : 2) && !(style == 2 && i % 2)) {
            if (style == 3 && best > 2) best -= best / 3;
            put(&b, 0, 1); put(&b, dist - 1, 8); put(&b, best - 1, 7);
            i += best;
        } else { put(&b, 1, 1); put(&b, d[i], 8); i++; }
    }
    return (b.n + 7) / 8;
}
static size_t hs_decode(const uint8_t *in, size_t n, uint8_t *o, size_t cap)
{
    size_t p = 0, k = 0;
#define GET(v, c) do { v = 0; for (int i_ = 0; i_ < (c); i_++, p++) v = v << 1 | (in[p / 8] >> (7 - p % 8) & 1); } while (0)
    while (n * 8 - p >= 9) {
        unsigned t, v, c;
        GET(t, 1);
        if (t) { GET(v, 8); if (k == cap) mc_fail("stream too long"); o[k++] = v; continue; }
        if (n * 8 - p < 15) break;
        GET(v, 8);
        GET(c, 7);
        for (unsigned i = 0; i <= c; i++) { if (k == cap) mc_fail("stream too long"); o[k] = k > v ? o[k - v - 1] : 0; k++; }
    }
    return k;
}
/* xz container in several valid forms */
#define NXZ 11
static size_t xz_encode(const uint8_t *d, size_t n, int style, uint8_t *o, size_t cap)
{
    size_t pos = 0;
    if (style == 9) { /* two streams one after the other */
        pos = xz_encode(d, n / 2, 0, o, cap);
        return pos + xz_encode(d + n / 2, n - n / 2, 3, o + pos, cap - pos);
    }
    if (style == 10) { /* one stream of two blocks */
        lzma_options_lzma q;
        lzma_lzma_preset(&q, 1);
        lzma_filter f[] = {{LZMA_FILTER_LZMA2, &q}, {LZMA_VLI_UNKNOWN, NULL}};
        lzma_stream s = LZMA_STREAM_INIT;
        if (lzma_stream_encoder(&s, f, LZMA_CHECK_CRC32) != LZMA_OK) mc_die("xz");
        s.next_in = d; s.avail_in = n / 3; s.next_out = o; s.avail_out = cap;
        if (lzma_code(&s, LZMA_FULL_FLUSH) != LZMA_STREAM_END) mc_die("xz");
        s.avail_in = n - n / 3;
        if (lzma_code(&s, LZMA_FINISH) != LZMA_STREAM_END) mc_die("xz");
        lzma_end(&s);
        return s.total_out;
    }
    lzma_options_lzma opt;
    lzma_lzma_preset(&opt, style == 1 ? 0 : style == 2 ? 9 : 6);
    if (style == 2) opt.dict_size = 192u << 20, opt.mode = LZMA_MODE_FAST, opt.mf = LZMA_MF_HC3, opt.nice_len = 64;
    if (style == 3) { opt.lc = 0; opt.lp = 2; opt.pb = 0; opt.dict_size = 4096; }
    lzma_options_delta del = {.type = LZMA_DELTA_TYPE_BYTE, .dist = 4};
    lzma_filter f1[] = {{LZMA_FILTER_LZMA2, &opt}, {LZMA_VLI_UNKNOWN, NULL}}, f2[] = {{LZMA_FILTER_X86, NULL}, {LZMA_FILTER_LZMA2, &opt}, {LZMA_VLI_UNKNOWN, NULL}},
        f3[] = {{LZMA_FILTER_DELTA, &del}, {LZMA_FILTER_LZMA2, &opt}, {LZMA_VLI_UNKNOWN, NULL}};
    lzma_filter *f = style == 4 ? f2 : style == 5 ? f3 : f1;
    lzma_check ck = style == 6 ? LZMA_CHECK_NONE : style == 7 ? LZMA_CHECK_CRC32 : style == 8 ? LZMA_CHECK_SHA256 : LZMA_CHECK_CRC64;
    if (lzma_stream_buffer_encode(f, ck, NULL, d, n, o, &pos, cap) != LZMA_OK) mc_die("xz");
    return pos;
}
static size_t xz_decode(const uint8_t *d, size_t n, uint8_t *o, size_t cap)
{
    uint64_t lim = UINT64_MAX;
    size_t ip = 0, op = 0;
    lzma_ret r = lzma_stream_buffer_decode(&lim, 0, NULL, d, &ip, n, o, &op, cap);
    if (r != LZMA_OK || ip != n) mc_fail("the stream is not one xz stream (%d, %zu of %zu bytes used)", r, ip, n);
    return op;
}
static int64_t soff(const uint8_t *b) { int64_t v = g(b, 8) & INT64_MAX; return b[7] & 0x80 ? -v : v; }
static void poff(uint8_t *b, int64_t v) { p64(b, v < 0 ? -v : v); if (v < 0) b[7] |= 0x80; }
/* strict interpretation of a delta */
static void apply(const uint8_t *d, size_t n, const uint8_t *o, size_t on, const uint8_t *t, size_t tn)
{
    size_t p = 0, w = 0;
    int64_t op = 0;
    while (p < n) {
        MC_CHECK(n - p >= 24, "the delta ends inside a control block");
        int64_t x = soff(d + p), y = soff(d + p + 8), z = soff(d + p + 16);
        p += 24;
        MC_CHECK(x >= 0 && y >= 0 && (uint64_t)x <= n - p && op >= 0 && op <= (int64_t)on && (uint64_t)x <= on - op && (uint64_t)x <= tn - w, "control block: difference of %ld bytes", (long)x);
        for (int64_t i = 0; i < x; i++, w++) MC_CHECK((uint8_t)(o[op + i] + d[p + i]) == t[w], "the delta gives another byte %zu", w);
        p += x; op += x;
        MC_CHECK((uint64_t)y <= n - p && (uint64_t)y <= tn - w, "control block: %ld extra bytes", (long)y);
        for (int64_t i = 0; i < y; i++, w++) MC_CHECK(d[p + i] == t[w], "the delta gives another byte %zu", w);
        p += y;
        op += z;
    }
    MC_CHECK(w == tn, "the delta gives %zu of %zu bytes", w, tn);
}
static void own(const uint8_t *o, size_t on, const uint8_t *t, size_t tn, int comp)
{
    static struct out s;
    static uint8_t plain[200000];
    struct bpak_bsdiff_context c;
    s.n = 0;
    int rc = bpak_bsdiff_init(&c, (uint8_t *)o, on, (uint8_t *)t, tn, ow, 0, COMP[comp], &s);
    MC_CHECK(rc == 0, "bsdiff_init: %d", rc);
    ssize_t r = bpak_bsdiff(&c);
    bpak_bsdiff_free(&c);
    MC_CHECK(r >= 0 && (size_t)r == s.n, "bsdiff returned %zd, wrote %zu", r, s.n);
    size_t pn = comp == NONE ? s.n : comp == HS ? hs_decode(s.d, s.n, plain, sizeof plain) : xz_decode(s.d, s.n, plain, sizeof plain);
    if (comp == NONE) memcpy(plain, s.d, s.n);
    apply(plain, pn, o, on, t, tn);
    mc_trans(1); mc_eval(1);
    mc_distinct(mc_hash(s.d, s.n, comp));
}
static const uint8_t *PO;
static size_t PON;
static ssize_t ord(off_t off, uint8_t *b, size_t n, void *u)
{
    (void)u;
    if (off < 0 || (size_t)off > PON) return 0;
    if (n > PON - off) n = PON - off;
    memcpy(b, PO + off, n);
    return n;
}
static void feed(const uint8_t *d, size_t n, int comp, size_t chunk, const uint8_t *t, size_t tn)
{
    static struct out s;
    struct bpak_bspatch_context *c = calloc(1, sizeof *c);
    uint8_t *buf = malloc(512);
    s.n = 0;
    int rc = bpak_bspatch_init(c, buf, 512, n, ord, 0, ow, 0, COMP[comp], &s);
    for (size_t p = 0; !rc && p < n; p += chunk) {
        size_t k = n - p < chunk ? n - p : chunk;
        uint8_t *x = malloc(k);
        memcpy(x, d + p, k);
        rc = bpak_bspatch_write(c, x, k);
        free(x);
    }
    ssize_t r = rc ? rc : bpak_bspatch_final(c);
    bpak_bspatch_free(c);
    free(c); free(buf);
    MC_CHECK(r == (ssize_t)tn, "a conforming delta is refused or gives another size (%zd, expected %zu)", r, tn);
    MC_CHECK(s.n == tn && !memcmp(s.d, t, tn), "a conforming delta gives other data");
    mc_trans(1); mc_eval(1);
}
/* the plain delta in all containers; through the patcher and as an encoded part of an archive */
static void foreign(const uint8_t *d, size_t n, const uint8_t *o, size_t on, const uint8_t *t, size_t tn, int depth)
{
    static uint8_t e[70000];
    PO = o; PON = on;
    mc_state(mc_hash(d, n, tn));
    feed(d, n, NONE, n ? n : 1, t, tn);
    feed(d, n, NONE, 7, t, tn);
    if (depth < 1) return;
    for (int s = 0; s < 4; s++) {
        size_t k = hs_encode(d, n, s, e);
        feed(e, k, HS, k ? k : 1, t, tn);
        feed(e, k, HS, 3, t, tn);
    }
    if (depth < 2) return;
    for (int s = 0; s < NXZ; s++) {
        size_t k = xz_encode(d, n, s, e, sizeof e);
        feed(e, k, LZ, k, t, tn);
        feed(e, k, LZ, 11, t, tn);
    }
}
/* an archive with one encoded part, by bytes; decoded by the tool */
static void encoded_part(const uint8_t *e, size_t en, int comp, const uint8_t *o, size_t on, const uint8_t *t, size_t tn)
{
    static uint8_t a[HDR + 80000], b[HDR + 80000];
    size_t m, opad = (512 - on % 512) % 512, tpad = (512 - tn % 512) % 512;
    rinit(a, 1, 2);
    memcpy(a + DATA, "\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f", 16);
    rmeta(a, 0, 0xfb2f1f3f, 16, 0, 0);
    rpart(a, 0, 0x77, on, HDR, 0, opad, 0);
    memcpy(a + HDR, o, on);
    memset(a + HDR + on, 0, opad);
    uint8_t dg[64];
    pu_digest(1, a + HDR, on + opad, dg);
    memcpy(a + PH, dg, 32);
    mc_write_file(F, a, HDR + on + opad);
    /* target, decoded: what must come out */
    rinit(b, 1, 2);
    memcpy(b + DATA, a + DATA, 16);
    rmeta(b, 0, 0xfb2f1f3f, 16, 0, 0);
    p32(b + DATA + 16, ENC[comp]); p32(b + DATA + 20, DEC[comp]);
    rmeta(b, 1, 0x2d44bbfb, 32, 16, 0x77);
    rpart(b, 0, 0x77, tn, HDR, 0, tpad, 0);
    memcpy(b + HDR, t, tn);
    memset(b + HDR + tn, 0, tpad);
    pu_digest(1, b + HDR, tn + tpad, dg);
    memcpy(b + PH, dg, 32);
    size_t bn = HDR + tn + tpad;
    /* encoded: the same header but for the part's flag and size */
    uint8_t h[HDR];
    memcpy(h, b, HDR);
    rpart(h, 0, 0x77, tn, HDR, en, tpad, 2);
    uint8_t *x = malloc(HDR + en);
    memcpy(x, h, HDR);
    memcpy(x + HDR, e, en);
    mc_write_file(G, x, HDR + en);
    free(x);
    unlink(O);
    int rc = tool("", "transport", G, "--decode", "--origin", F, "--output", O, NULL);
    uint8_t *r = mc_read_file(O, &m);
    MC_CHECK(rc == 0 && r, "decoding a conforming encoded archive (container %d, %zu bytes) returned %d", comp, en, rc);
    MC_CHECK(m == bn, "the decoded archive has %zu bytes, expected %zu", m, bn);
    for (size_t i = 0; i < bn; i++) {
        if (i >= PART + 20 && i < PART + 28) continue; /* the encoded size may stay recorded */
        MC_CHECK(r[i] == b[i], "byte %zu of the decoded archive is %02x, expected %02x", i, r[i], b[i]);
    }
    free(r);
    mc_eval(1);
    /* the other way: the tool encodes the target; only documented bytes differ and the stream is conforming */
    mc_write_file(G, b, bn);
    unlink(O);
    rc = tool("", "transport", G, "--encode", "--origin", F, "--output", O, NULL);
    r = mc_read_file(O, &m);
    MC_CHECK(rc == 0 && r && m >= HDR, "encoding returned %d", rc);
    size_t ts = m - HDR;
    rpart(h, 0, 0x77, tn, HDR, ts, tpad, 2);
    for (size_t i = 0; i < HDR; i++) if (i < PH || i >= PH + 64) MC_CHECK(r[i] == h[i], "byte %zu of the encoded archive is %02x, expected %02x", i, r[i], h[i]);
    static uint8_t plain[200000];
    size_t pn = comp == NONE ? ts : comp == HS ? hs_decode(r + HDR, ts, plain, sizeof plain) : xz_decode(r + HDR, ts, plain, sizeof plain);
    if (comp == NONE) memcpy(plain, r + HDR, ts);
    apply(plain, pn, a + HDR, on + opad, b + HDR, tn + tpad);
    free(r);
    mc_eval(1);
}
static size_t block(uint8_t *d, const uint8_t *o, int64_t op, const uint8_t *t, int x, int y, int64_t z)
{
    poff(d, x); poff(d + 8, y); poff(d + 16, z);
    for (int i = 0; i < x; i++) d[24 + i] = t[i] - o[op + i];
    memcpy(d + 24 + x, t + x, y);
    return 24 + x + y;
}
static void streams(void)
{
    static uint8_t o[64], t[64], d[2000];
    /* every way of writing a short target as two (three) control blocks over a short origin */
    int ON = mc_thorough ? 5 : 4, TN = mc_thorough ? 5 : 4;
    for (int on = 0; on <= ON; on++)
        for (int tn = 0; tn <= TN; tn++)
            for (int v = 0; v < 2; v++)
                for (int n1 = 0; n1 <= tn; n1++)
                    for (int n2 = 0; n1 + n2 <= tn; n2++)
                        for (int p2 = 0; p2 <= on; p2++)
                            for (int p3 = 0; p3 <= on; p3++) {
                                int n3 = tn - n1 - n2;
                                if (!n3 && p3) continue;
                                if (!mc_mine()) continue;
                                mc_case("origin %d, target %d (variant %d) written in blocks of %d %d %d bytes from positions 0 %d %d", on, tn, v, n1, n2, n3, p2, p3);
                                for (int i = 0; i < 8; i++) { o[i] = v ? 0xf0 + i : 'a' + i % 2; t[i] = v ? R[i] : 'b' - i % 2; }
                                for (int x1 = 0; x1 <= n1 && x1 <= on; x1++)
                                    for (int x2 = 0; x2 <= n2 && x2 <= on - p2; x2++)
                                        for (int x3 = 0; x3 <= n3 && x3 <= on - p3; x3++) {
                                            size_t n = block(d, o, 0, t, x1, n1 - x1, p2 - x1);
                                            if (!n3 && !n2 && !mc_thorough && x2) continue;
                                            n += block(d + n, o, p2, t + n1, x2, n2 - x2, n3 ? p3 - p2 - x2 : (v ? 0 : -p2 - x2));
                                            if (n3) n += block(d + n, o, p3, t + n1 + n2, x3, n3 - x3, 0);
                                            foreign(d, n, o, on, t, tn, (x1 + x2 + x3 + n1) % 3 == 0 ? 2 : 1);
                                        }
                            }
    /* the library's own streams and archives for short strings and structured data */
    for (int on = 0; on <= (mc_thorough ? 5 : 4); on++)
        for (int tn = 0; tn <= (mc_thorough ? 6 : 5); tn++)
            for (int a = 0; a < 1 << on; a++)
                for (int b = 0; b < 1 << tn; b++) {
                    if (!mc_mine()) continue;
                    mc_case("own delta, origin %d/%x target %d/%x", on, a, tn, b);
                    for (int i = 0; i < on; i++) o[i] = a >> i & 1 ? 'z' : 0;
                    for (int i = 0; i < tn; i++) t[i] = b >> i & 1 ? 'z' : 0;
                    for (int c = 0; c < 3; c++) own(o, on, t, tn, c);
                }
    static uint8_t bo[20000], bt[20000], e[70000], pd[70000];
    static const int SZ[] = {0, 1, 300, 511, 512, 513, 4095, 4096, 4097, 9000};
    for (int a = 0; a < 10; a++)
        for (int b = 0; b < 10; b++)
            for (int k = 0; k < 5; k++) {
                if (!mc_mine()) continue;
                int on = SZ[a], tn = SZ[b];
                mc_case("archives: origin %d bytes, target %d bytes, relation %d", on, tn, k);
                pu_fill(bo, sizeof bo, 5);
                switch (k) {
                case 0: memcpy(bt, bo, sizeof bt); break;
                case 1: memcpy(bt, bo, sizeof bt); for (int i = 50; i < tn; i += 301) bt[i] ^= 0x11; break;
                case 2: memcpy(bt, bo + 300, sizeof bt - 300); memcpy(bt + tn / 2, bo, tn - tn / 2); break;
                case 3: pu_fill(bt, sizeof bt, 6); break;
                default: memset(bt, 0, sizeof bt); memset(bo, 0, 2000); break;
                }
                for (int c = 0; c < 3; c++) own(bo, on, bt, tn, c);
                /* a delta of another encoder: two thirds from the front of the origin, the rest as extra data in steps;
                 * once of the strings themselves, once as a part is encoded: with the padding, from the padded origin */
                for (int padded = 0; padded < 2; padded++) {
                int on0 = on, tn0 = tn;
                size_t n = 0;
                int w = 0;
                if (padded) {
                    memset(bo + on, 0, 512); memset(bt + tn, 0, 512);
                    on = (on + 511) & ~511; tn = (tn + 511) & ~511;
                }
                while (w < tn) {
                    int len = tn - w < 1900 ? tn - w : 1900, x = on < len * 2 / 3 ? on : len * 2 / 3;
                    n += block(pd + n, bo, 0, bt + w, x, len - x, -x);
                    w += len;
                }
                PO = bo; PON = on;
                for (int c = 0; c < 3; c++)
                    for (int s = 0; s < (c == NONE ? 1 : c == HS ? 4 : NXZ); s++) {
                        if (!mc_thorough && (a + b + k + s) % 3 && s) continue;
                        size_t en = c == NONE ? n : c == HS ? hs_encode(pd, n, s, e) : xz_encode(pd, n, s, e, sizeof e);
                        if (c == NONE) memcpy(e, pd, n);
                        feed(e, en, c, 777, bt, tn);
                        if (padded && (s == 0 || mc_thorough || (a * 3 + b + k + s) % 5 == 0)) encoded_part(e, en, c, bo, on0, bt, tn0);
                    }
                on = on0; tn = tn0;
                }
            }
}
int mc_run(void)
{
    pu_fill(R, sizeof R, 2929);
    for (size_t i = 0; i < sizeof R; i++) if (!R[i]) R[i] = 0x5c;
    strcpy(F, mc_path("f.bpak")); strcpy(G, mc_path("g.bpak")); strcpy(O, mc_path("o"));
    pu_inproc = true;
    headers();
    numbers();
    archives();
    streams();
    return 0;
}
