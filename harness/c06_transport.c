/* C06: transport encode + decode reproduces the target package byte for byte. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/crypto.h>
#include <unistd.h>

enum { K_COPY, K_EXCL0, K_BSD, K_NOC, K_LZM_UNREL, K_BSD_TO_EMPTY, K_BSD_FROM_EMPTY, K_FS_BSD, K_FS_COPY, K_FS_LZMA_TREE_KEPT, K_BSD_EQ, K_REPL_ALL, K_BIG, K_FS_APART, K_FS_CROSSED, K_HUGE, K_EXCL, NK };
static const char *kn[] = {"copy", "empty-excluded", "bsdiff", "bsdiff-no-comp", "bsdiff-lzma-unrelated", "bsdiff-to-empty", "bsdiff-from-empty",
    "fs-bsdiff+tree", "fs-copy-excluded+tree", "fs-lzma+kept-tree", "bsdiff-equal", "nocomp-replaced", "bsdiff-large", "fs-part-tree", "fs-fs-tree-tree-crossed", "lzma-and-plain-above-64k", "excluded"};
static uint8_t R[150000], Q[150000];
static struct pu tgt, org, A;
static struct bpak_key *pub;

/* data part now, its tree part (tree) later */
static void fspart(struct pu *p, const char *n, const uint8_t *d, size_t len, int sb, bool tree)
{
    uint8_t salt[32], root[32], *t;
    size_t tl;
    for (int i = 0; i < 32; i++) salt[i] = sb + 5 * i;
    if (!tree) { pu_part(p, pu_id(n), d, len, 0); return; }
    t = pu_merkle(d, len, salt, 32, &tl, root);
    pu_part(p, pu_tree_id(pu_id(n)), t, tl, 0);
    pu_meta(p, pu_id("merkle-salt"), pu_id(n), salt, 32);
    pu_meta(p, pu_id("merkle-root-hash"), pu_id(n), root, 32);
    free(t);
}
/* the padding of the part added last is not zero */
static void padding(struct pu *p)
{
    int n = 0;
    while (n < 32 && p->h.parts[n].id) n++;
    memset(p->data + p->len - p->h.parts[n - 1].pad_bytes, 0xa5, p->h.parts[n - 1].pad_bytes);
}
static void tpart(int k, int pos)
{
    char n[16];
    static uint8_t b[150000];
    snprintf(n, 16, "%s%d", k == K_FS_BSD || k == K_FS_COPY || k == K_FS_LZMA_TREE_KEPT || k == K_FS_APART || k == K_FS_CROSSED ? "fs" : "p", pos);
    uint32_t id = pu_id(n);
    const uint8_t *r = R + 100 * pos, *q = Q + 100 * pos;
    switch (k) {
    case K_COPY: pu_part(&tgt, id, r, 700 + pos, 0); pu_part(&org, id, q, 10, 0); if (pos % 2) padding(&tgt); break;
    case K_EXCL: pu_part(&tgt, id, r, 1277 + pos, 1); pu_part(&org, id, q, 1030, 1); padding(&tgt); break;
    case K_EXCL0: pu_part(&tgt, id, r, 0, 1); pu_part(&org, id, q, 600, 1); break;
    case K_BSD: memcpy(b, r, 1500); memmove(b + 710, b + 700, 600); b[5]++;
        pu_part(&org, id, r, 1500, 0); pu_part(&tgt, id, b, 1400, 0); if (pos % 2) padding(&tgt); pu_transport(&tgt, id, "bsdiff", "bspatch"); break;
    case K_NOC: memcpy(b, r, 5000); memcpy(b + 5000, r + 100, 2000); b[4096]++;
        pu_part(&org, id, r, 5000, 0); pu_part(&tgt, id, b, 7000, 1); pu_transport(&tgt, id, "bsdiff-no-comp", "bspatch-no-comp"); break;
    case K_LZM_UNREL: pu_part(&org, id, r, 900, 0); pu_part(&tgt, id, q, 6000, 0); pu_transport(&tgt, id, "bsdiff-lzma", "bspatch-lzma"); break;
    case K_BSD_TO_EMPTY: pu_part(&org, id, r, 900, 0); pu_part(&tgt, id, q, 0, 0); pu_transport(&tgt, id, pos % 2 ? "bsdiff-lzma" : "bsdiff", pos % 2 ? "bspatch-lzma" : "bspatch"); break;
    case K_BSD_FROM_EMPTY: pu_part(&org, id, r, 0, 0); pu_part(&tgt, id, q, 800, 0); pu_transport(&tgt, id, pos % 2 ? "bsdiff-no-comp" : "bsdiff", pos % 2 ? "bspatch-no-comp" : "bspatch"); break;
    case K_FS_BSD: memcpy(b, r, 8192); memcpy(b + 8192, r, 4096); b[777] ^= 3;
        pu_merkle_parts(&org, n, r, 8192, 0, 5); pu_merkle_parts(&tgt, n, b, 12288, 0, 9 + pos);
        pu_transport(&tgt, id, "bsdiff", "bspatch"); pu_transport(&tgt, pu_tree_id(id), "remove-data", "merkle-generate"); break;
    case K_FS_COPY: pu_merkle_parts(&org, n, q, 4096, 1, 5); pu_merkle_parts(&tgt, n, r, 4096, 1, pos);
        pu_transport(&tgt, pu_tree_id(id), "remove-data", "merkle-generate"); break;
    case K_FS_LZMA_TREE_KEPT: memcpy(b, r, 8192); memset(b + 5000, 0, 100);
        pu_merkle_parts(&org, n, r, 8192, 1, 5); pu_merkle_parts(&tgt, n, b, 8192, 0, 77);
        pu_transport(&tgt, id, "bsdiff-lzma", "bspatch-lzma"); break;
    case K_BSD_EQ: pu_part(&org, id, r, 4608, 0); pu_part(&tgt, id, r, 4608, 0); pu_transport(&tgt, id, "bsdiff", "bspatch"); break;
    case K_REPL_ALL: for (int i = 0; i < 4000; i++) b[i] = r[i] + 1; pu_part(&org, id, r, 4000, 0); pu_part(&tgt, id, b, 4000, 0); pu_transport(&tgt, id, "bsdiff-no-comp", "bspatch-no-comp"); break;
    case K_BIG: memcpy(b, r + 9000, 9000); memcpy(b + 9000, q, 3000); memcpy(b + 12000, r, 9001);
        pu_part(&org, id, r, 20000, 0); pu_part(&tgt, id, b, 21001, 0); pu_transport(&tgt, id, "bsdiff", "bspatch"); break;
    case K_HUGE: memcpy(b, r + 30000, 66000); memcpy(b + 66000, q, 900); memcpy(b + 66900, r, 68001); b[65536] ^= 4;
        pu_part(&org, id, r, 131073, 0); pu_part(&tgt, id, b, 134901, 0); pu_transport(&tgt, id, pos % 2 ? "bsdiff-no-comp" : "bsdiff-lzma", pos % 2 ? "bspatch-no-comp" : "bspatch-lzma"); break;
    case K_FS_APART: {
        char m[20];
        snprintf(m, 20, "mid%d", pos);
        memcpy(b, r, 8192); b[99] ^= 1;
        pu_merkle_parts(&org, n, r, 8192, 0, 5);
        fspart(&tgt, n, b, 8192, 40 + pos, false);
        pu_part(&tgt, pu_id(m), q, 600 + pos, 0);
        fspart(&tgt, n, b, 8192, 40 + pos, true);
        pu_transport(&tgt, id, "bsdiff", "bspatch"); pu_transport(&tgt, pu_tree_id(id), "remove-data", "merkle-generate"); break;
    }
    case K_FS_CROSSED: {
        char m[20];
        snprintf(m, 20, "gs%d", pos);
        memcpy(b, r, 8192); b[4999] ^= 1;
        pu_merkle_parts(&org, n, r, 8192, 0, 5);
        fspart(&tgt, n, b, 8192, 50 + pos, false);
        fspart(&tgt, m, q, 4096, 60 + pos, false);
        fspart(&tgt, m, q, 4096, 60 + pos, true);
        fspart(&tgt, n, b, 8192, 50 + pos, true);
        pu_transport(&tgt, id, "bsdiff-no-comp", "bspatch-no-comp");
        pu_transport(&tgt, pu_tree_id(id), "remove-data", "merkle-generate");
        pu_transport(&tgt, pu_tree_id(pu_id(m)), "remove-data", "merkle-generate"); break;
    }
    }
}
/* origin variants: 0 as built; 1 extra part in front and different metadata layout; 2 reversed parts; 3 without the parts nobody needs; */
static void orgvar(int v, const int *seq, int n)
{
    struct pu o = org, t;
    if (v == 0) return;
    pu_init(&t, 3);
    if (v == 1) {
        pu_meta(&t, pu_id("first"), 0, "0123456789abcdefghij", 20);
        pu_part(&t, pu_id("zero"), Q, 333, 0);
    }
    pu_uuid(&t, 1);
    int cnt = 0;
    while (cnt < 32 && o.h.parts[cnt].id) cnt++;
    for (int j = 0; j < cnt; j++) {
        int i = v == 2 ? cnt - 1 - j : j;
        if (v == 3) {
            bool needed = false;
            for (int k = 0; k < 32; k++) if (tgt.h.meta[k].id == pu_id("bpak-transport") && tgt.h.meta[k].part_id_ref == o.h.parts[i].id) needed = true;
            if (!needed) continue;
        }
        pu_part(&t, o.h.parts[i].id, o.data + pu_offset(&o.h, i) - 4096, o.h.parts[i].size, o.h.parts[i].flags);
    }
    (void)seq; (void)n;
    pu_free(&o);
    org = t;
}
static void same_file(const char *path, const struct pu *p, const char *what)
{
    if (!pu_load(&A, path)) mc_fail("%s: unreadable", what);
    MC_CHECK(A.len == p->len, "%s: %zu payload bytes, expected %zu", what, A.len, p->len);
    for (size_t i = 0; i < A.len; i++) MC_CHECK(A.data[i] == p->data[i], "%s: payload byte %zu differs", what, i);
    for (size_t i = 0; i < 4096; i++) MC_CHECK(((uint8_t *)&A.h)[i] == ((const uint8_t *)&p->h)[i], "%s: header byte %zu differs (%02x expected %02x)", what, i, ((uint8_t *)&A.h)[i], ((const uint8_t *)&p->h)[i]);
}
static int lib(bool enc, const char *in, const char *out, const char *orgf)
{
    static struct bpak_package i, o, g;
    if (bpak_pkg_open(&i, in, "rb")) mc_fail("cannot open %s", in);
    if (bpak_pkg_open(&o, out, "wb+")) mc_fail("cannot open output");
    if (orgf && bpak_pkg_open(&g, orgf, "rb")) mc_fail("cannot open origin");
    static struct bpak_header ih, gh, oh;
    ih = i.header;
    if (orgf) gh = g.header;
    int rc = enc ? bpak_pkg_transport_encode(&i, &o, orgf ? &g : NULL) : bpak_pkg_transport_decode(&i, &o, orgf ? &g : NULL);
    mc_trans(1);
    MC_CHECK(!memcmp(&i.header, &ih, sizeof ih), "the header of the open input package changed");
    MC_CHECK(!orgf || !memcmp(&g.header, &gh, sizeof gh), "the header of the open origin package changed");
    oh = o.header;
    bpak_pkg_close(&i); bpak_pkg_close(&o);
    if (orgf) bpak_pkg_close(&g);
    if (rc == 0) {
        if (!pu_load(&A, out)) mc_fail("output unreadable");
        MC_CHECK(!memcmp(&A.h, &oh, sizeof oh), "the header of the open output package differs from the file");
    }
    return rc;
}
/* extraction gives what is stored of a part, encoded or not */
static void extract(const char *f, uint32_t id, const uint8_t *want, size_t n, bool use_tool)
{
    static char xf[300], idn[16];
    static uint8_t got[400000];
    strcpy(xf, mc_path("x"));
    unlink(xf);
    int rc;
    if (use_tool) {
        snprintf(idn, sizeof idn, "0x%x", id);
        rc = tool("", "extract", f, "--part", idn, "--output", xf, NULL);
    } else {
        static struct bpak_package p;
        if (bpak_pkg_open(&p, f, "rb")) mc_fail("cannot open %s", f);
        rc = bpak_pkg_extract_file(&p, id, xf);
        bpak_pkg_close(&p);
    }
    MC_CHECK(rc == 0, "extracting part %x returned %d", id, rc);
    FILE *fp = fopen(xf, "rb");
    if (!fp) mc_fail("no extracted file");
    size_t r = fread(got, 1, sizeof got, fp);
    fclose(fp);
    MC_CHECK(r == n && !memcmp(got, want, n), "extracting part %x of the encoded archive gave %zu bytes, or other bytes, instead of the %zu stored", id, r, n);
}
static void run(const int *seq, int n, int ov, int hk, bool use_tool)
{
    static char tf[300], of[300], ef[300], df[300], e2[300];
    strcpy(tf, mc_path("tgt")); strcpy(of, mc_path("org")); strcpy(ef, mc_path("enc")); strcpy(df, mc_path("dec")); strcpy(e2, mc_path("enc2"));
    pu_init(&tgt, hk); pu_init(&org, 1);
    pu_uuid(&org, 1); pu_uuid(&tgt, 1);
    pu_meta(&tgt, pu_id("bpak-version"), 0, "2.0.0", 6);
    tgt.h.key_id = 5;
    for (int i = 0; i < n; i++) tpart(seq[i], i);
    orgvar(ov, seq, n);
    pu_rehash(&tgt); pu_rehash(&org);
    pu_sign(&tgt, pu_key("p256-a.pem"));
    pu_save(&tgt, tf); pu_save(&org, of);
    int rc;
    bool need = false;
    for (int i = 0; i < n; i++) if (seq[i] != K_COPY && seq[i] != K_EXCL0 && seq[i] != K_EXCL && seq[i] != K_FS_COPY) need = true;
    for (int noorg = 0; noorg < (need ? 1 : 2); noorg++) {
        mc_case_add("%s", noorg ? " (no origin)" : "");
        const char *o = noorg ? NULL : of;
        unlink(ef); unlink(df);
        rc = use_tool ? tool("", "transport", tf, "--encode", "--output", ef, o ? "--origin" : NULL, o, NULL) : lib(true, tf, ef, o);
        MC_CHECK(rc == 0, "encode returned %d", rc);
        same_file(tf, &tgt, "input after encode"); same_file(of, &org, "origin after encode");
        /* the encoded archive: every part stored in its declared size, unencoded parts verbatim */
        if (!pu_load(&A, ef)) mc_fail("encoded archive unreadable");
        size_t tot = 0;
        for (int i = 0; i < 32 && tgt.h.parts[i].id; i++) {
            struct bpak_part_header *a = &A.h.parts[i], *t = &tgt.h.parts[i];
            bool enc = false;
            for (int k = 0; k < 32; k++) if (tgt.h.meta[k].id == pu_id("bpak-transport") && tgt.h.meta[k].part_id_ref == t->id) enc = true;
            MC_CHECK(a->id == t->id && a->size == t->size && a->pad_bytes == t->pad_bytes && (a->flags & ~2) == t->flags, "encoded part header %d changed", i);
            MC_CHECK(enc == !!(a->flags & 2), "part %d encoded flag is %d", i, a->flags);
            MC_CHECK(enc || !memcmp(A.data + tot, tgt.data + pu_offset(&tgt.h, i) - 4096, pu_stored(t)), "unencoded part %d not stored verbatim", i);
            if (n < 3) extract(ef, a->id, A.data + tot, (a->flags & 2) ? a->transport_size : a->size, use_tool);
            tot += pu_stored(a);
        }
        MC_CHECK(A.len == tot, "encoded archive holds %zu bytes, parts declare %zu", A.len, tot);
        mc_state(mc_hash(A.data, A.len, mc_hash(A.h.parts, sizeof A.h.parts, 3)));
        /* encoding an already encoded package must not lose anything */
        if (n == 1 || (n == 2 && seq[0] == K_COPY)) {
            unlink(e2);
            rc = use_tool ? tool("", "transport", ef, "--encode", "--output", e2, o ? "--origin" : NULL, o, NULL) : lib(true, ef, e2, o);
            if (rc == 0) {
                struct pu first; pu_init(&first, 1); pu_copy(&first, &A);
                same_file(e2, &first, "package encoded twice");
                pu_copy(&A, &first); pu_free(&first);
            }
        }
        struct pu encimg; pu_init(&encimg, 1); pu_copy(&encimg, &A);
        rc = use_tool ? tool("", "transport", ef, "--decode", "--output", df, o ? "--origin" : NULL, o, NULL) : lib(false, ef, df, o);
        MC_CHECK(rc == 0, "decode returned %d", rc);
        same_file(df, &tgt, "decoded package");
        same_file(ef, &encimg, "encoded package after decode");
        same_file(of, &org, "origin after decode");
        mc_distinct(mc_hash(encimg.h.parts, sizeof encimg.h.parts, noorg));
        pu_free(&encimg);
        if (use_tool) rc = tool("", "verify", df, "--key", pu_key("p256-a.pub.pem"), NULL);
        else {
            struct bpak_package p;
            if (bpak_pkg_open(&p, df, "rb")) mc_fail("cannot open decoded package");
            rc = bpak_pkg_verify(&p, pub);
            bpak_pkg_close(&p);
        }
        MC_CHECK(rc == 0, "decoded package does not verify: %d", rc);
        mc_eval(1);
    }
    pu_free(&tgt); pu_free(&org);
}
static void all(int len, int maxk, int nov, int nhk, bool use_tool)
{
    int seq[4];
    long total = 1;
    for (int i = 0; i < len; i++) total *= maxk;
    for (long x = 0; x < total; x++)
        for (int ov = 0; ov < nov; ov++)
            for (int hk = 1; hk <= nhk; hk++) {
                if (!mc_mine()) continue;
                long y = x;
                for (int i = len - 1; i >= 0; i--) { seq[i] = y % maxk; y /= maxk; }
                int huge = 0, odd = 0;
                for (int i = 0; i < len; i++) { huge += seq[i] == K_HUGE; odd += seq[i] != K_HUGE && seq[i] != K_COPY && seq[i] != K_FS_BSD; }
                if (huge && len > 1 && (huge > 1 || len > (mc_thorough ? 3 : 2) || (odd && !mc_thorough))) continue;
                mc_case("%s, origin variant %d, hash %d, parts:", use_tool ? "tool" : "library", ov, hk);
                for (int i = 0; i < len; i++) mc_case_add(" %s", kn[seq[i]]);
                run(seq, len, ov, hk, use_tool);
            }
}
int mc_run(void)
{
    pu_fill(R, sizeof R, 1); pu_fill(Q, sizeof Q, 2);
    for (size_t i = 0; i < sizeof R; i += 3) R[i] = 'x'; /* compressible */
    if (bpak_crypto_load_public_key(pu_key("p256-a.pub.pem"), &pub)) mc_fail("cannot load key");
    all(0, NK, 3, 3, false);
    all(0, NK, 1, 3, true);
    all(1, NK, 4, 3, false);
    all(2, NK, 4, 1, false);
    all(3, NK, mc_thorough ? 4 : 1, 1, false);
    if (mc_thorough) all(4, NK, 1, 1, false);
    all(1, NK, 4, 1, true);
    all(2, NK, mc_thorough ? 4 : 1, 1, true);
    if (mc_thorough) all(3, NK, 1, 1, true);
    pu_free(&A);
    return 0;
}
