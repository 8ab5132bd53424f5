/* C09: hash trees against the reference construction. */
#include "mc.h"
#include "pu.h"
#include <bpak/merkle.h>
#include <bpak/verify.h>
#include <bpak/pkg.h>
#include <unistd.h>

static uint8_t *tree;
static size_t tsz;
static off_t base;
static long nops, failop;
static int failmode;
static bool trip(size_t n, ssize_t *r)
{
    if (failop < 0 || nops++ != failop) return false;
    *r = failmode ? (ssize_t)n - 1 : -33;
    return true;
}
static ssize_t wr(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    (void)u;
    MC_CHECK(o >= base && (size_t)(o - base) + n <= tsz, "tree write of %zu bytes at %lld, outside the %zu reserved bytes at %lld", n, (long long)o, tsz, (long long)base);
    if (trip(n, &r)) return r;
    memcpy(tree + (o - base), b, n);
    return n;
}
static ssize_t rd(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    (void)u;
    MC_CHECK(o >= base && (size_t)(o - base) + n <= tsz, "tree read of %zu bytes at %lld, outside the tree", n, (long long)o);
    if (trip(n, &r)) return r;
    memcpy(b, tree + (o - base), n);
    return n;
}
static int gen(const uint8_t *d, size_t n, const uint8_t *salt, size_t sl, size_t chunk, size_t first, bool zf, uint8_t root[32])
{
    static struct bpak_merkle_context c;
    memset(&c, 0x6B, sizeof c);
    int rc = bpak_merkle_init(&c, n, salt, sl, wr, rd, base, zf, NULL);
    if (rc) return rc;
    MC_CHECK(bpak_merkle_get_size(&c) == tsz, "get_size says %zu, the tree has %zu bytes", bpak_merkle_get_size(&c), tsz);
    size_t o = 0;
    while (o < n) {
        size_t k = o == 0 && first ? first : chunk;
        if (k > n - o) k = n - o;
        rc = bpak_merkle_write_chunk(&c, (uint8_t *)d + o, k);
        if (rc) return rc;
        o += k;
    }
    mc_trans(1);
    return bpak_merkle_finish(&c, root);
}
static uint8_t *D, salt[32];
static void against(size_t n, size_t sl, size_t chunk, size_t first, bool zf)
{
    uint8_t root[32], rr[32];
    size_t rl;
    uint8_t *r = pu_merkle(D, n, salt, sl, &rl, rr);
    ssize_t cs = bpak_merkle_compute_size(n);
    MC_CHECK(cs == (ssize_t)rl, "computed tree size %zd, reference %zu", cs, rl);
    tree = malloc(rl); tsz = rl;
    memset(tree, zf ? 0xEE : 0, rl);
    failop = -1;
    int rc = gen(D, n, salt, sl, chunk, first, zf, root);
    mc_eval(1);
    MC_CHECK(rc == 0, "generation returned %d", rc);
    for (size_t i = 0; i < rl; i++) MC_CHECK(tree[i] == r[i], "tree byte %zu of %zu is %02x, reference %02x", i, rl, tree[i], r[i]);
    MC_CHECK(!memcmp(root, rr, 32), "root hash %s, reference %s", mc_hex(root, 32), mc_hex(rr, 32));
    mc_distinct(mc_hash(root, 32, n));
    free(tree); free(r);
}
struct vb { const uint8_t *d; size_t n; off_t dbase, tbase; const uint8_t *t; size_t tn; };
static ssize_t vrd(off_t o, uint8_t *b, size_t n, void *u)
{
    struct vb *v = u;
    if (o >= v->dbase && (size_t)(o - v->dbase) + n <= v->n) { memcpy(b, v->d + (o - v->dbase), n); return n; }
    if (o >= v->tbase && (size_t)(o - v->tbase) + n <= v->tn) { memcpy(b, v->t + (o - v->tbase), n); return n; }
    return -1;
}
static void verify_tree(size_t n)
{
    uint8_t rr[32];
    size_t rl;
    uint8_t *r = pu_merkle(D, n, salt, 32, &rl, rr);
    struct vb v = {D, n, 512, 512 + 2 * n, r, rl};
    int rc = bpak_verify_merkle_tree(vrd, 512, n, 512 + 2 * n, rr, salt, &v);
    mc_eval(1);
    MC_CHECK(rc == 0, "verification of the reference tree returned %d", rc);
    static const size_t at[] = {0, 31, 32, 4095};
    for (size_t b = 0; b < rl; b += 4096)
        for (int k = 0; k < 4; k++) {
            r[b + at[k]] ^= 1;
            rc = bpak_verify_merkle_tree(vrd, 512, n, 512 + 2 * n, rr, salt, &v);
            r[b + at[k]] ^= 1;
            /* padding that follows the last used hash does not contribute below the top level */
            bool pad = n == 4096 ? at[k] >= 32 : false;
            mc_trans(1);
            if (!pad) MC_CHECK(rc != 0, "tree byte %zu changed and still accepted", b + at[k]);
        }
    rr[31] ^= 128;
    rc = bpak_verify_merkle_tree(vrd, 512, n, 512 + 2 * n, rr, salt, &v);
    MC_CHECK(rc != 0, "wrong root hash accepted");
    free(r);
}
/* geometry of sizes too large to fill */
static off_t first_wr;
static ssize_t gwr(off_t o, uint8_t *b, size_t n, void *u) { (void)b; (void)u; first_wr = o; return n; }
static void geometry(uint64_t blocks)
{
    static struct bpak_merkle_context c;
    uint64_t lv[10], n = 0, tot = 0, cur = blocks;
    do { lv[n] = (cur * 32 + 4095) / 4096; tot += lv[n] * 4096; cur = lv[n]; n++; } while (cur > 1);
    ssize_t cs = bpak_merkle_compute_size(blocks * 4096);
    int rc = bpak_merkle_init(&c, blocks * 4096, salt, 32, gwr, rd, 1000, false, NULL);
    mc_eval(1);
    if (n <= BPAK_MERKLE_MAX_LEVELS) {
        MC_CHECK(cs == (ssize_t)tot, "compute_size returned %zd, reference %llu", cs, (unsigned long long)tot);
        MC_CHECK(rc == 0, "init returned %d for a supported size (%llu levels)", rc, (unsigned long long)n);
        MC_CHECK(bpak_merkle_get_size(&c) == tot, "get_size %zu, reference %llu", bpak_merkle_get_size(&c), (unsigned long long)tot);
        static uint8_t blk[4096];
        rc = bpak_merkle_write_chunk(&c, blk, 4096);
        MC_CHECK(rc == 0 && first_wr == (off_t)(1000 + tot - lv[0] * 4096), "first leaf written at %lld", (long long)first_wr);
    } else {
        MC_CHECK(cs < 0 && rc < 0, "a size needing %llu levels is not refused (%zd, %d)", (unsigned long long)n, cs, rc);
    }
    mc_distinct(mc_hash(&tot, 8, rc));
}
static struct pu A, X;
static void package(size_t n, int flags, bool use_tool, int before)
{
    static char f[300], a[300];
    struct bpak_package p;
    strcpy(f, mc_path("data")); strcpy(a, mc_path("a.bpak"));
    mc_write_file(f, D, n);
    pu_init(&X, 1); pu_uuid(&X, 1);
    if (before) pu_part(&X, pu_id("first"), D + 5, 700, 0);
    pu_rehash(&X);
    pu_save(&X, a);
    int rc;
    if (use_tool) rc = tool("", "add", a, "--part", "fs", "--from-file", f, "--encoder", "merkle", flags ? "--set-flag" : NULL, "dont-hash", NULL);
    else {
        if (bpak_pkg_open(&p, a, "rb+")) mc_fail("open");
        rc = bpak_pkg_add_file_with_merkle_tree(&p, f, "fs", flags);
        bpak_pkg_close(&p);
    }
    mc_eval(1);
    bool ok = n && n % 4096 == 0;
    MC_CHECK((rc == 0) == ok, "adding a %zu byte file with a hash tree returned %d", n, rc);
    if (!pu_load(&A, a)) mc_fail("archive unreadable");
    if (!ok) { MC_CHECK(!memcmp(&A.h, &X.h, 4096) && A.len == X.len, "refused addition changed the archive"); return; }
    /* salt is random: take it from the archive, everything else must follow */
    uint8_t s[32], *t, root[32];
    size_t tl;
    int found = 0;
    uint32_t fs = pu_id("fs");
    for (int i = 0; i < 32; i++)
        if (A.h.meta[i].id == pu_id("merkle-salt") && A.h.meta[i].part_id_ref == fs) { MC_CHECK(A.h.meta[i].size == 32, "salt size %u", A.h.meta[i].size); memcpy(s, A.h.metadata + A.h.meta[i].offset, 32); found++; }
    MC_CHECK(found == 1, "%d salts", found);
    pu_part(&X, fs, D, n, flags);
    t = pu_merkle(D, n, s, 32, &tl, root);
    pu_part(&X, pu_tree_id(fs), t, tl, flags);
    /* the library sets the salt and root metadata in this order; compare as a set */
    for (int i = 0; i < 32; i++)
        if (A.h.meta[i].id == pu_id("merkle-root-hash")) { found += 10; MC_CHECK(A.h.meta[i].part_id_ref == fs && A.h.meta[i].size == 32 && !memcmp(A.h.metadata + A.h.meta[i].offset, root, 32), "stored root hash is not the reference root"); }
    MC_CHECK(found == 11, "root hash metadata missing or duplicated");
    MC_CHECK(A.len == X.len && !memcmp(A.data, X.data, X.len), "stored data and tree differ from the reference");
    MC_CHECK(!memcmp(A.h.parts, X.h.parts, sizeof X.h.parts), "part table differs from the reference");
    free(t);
    pu_free(&X);
}
int mc_run(void)
{
    size_t big = ((size_t)128 * 128 + 130) * 4096;
    D = malloc(big + 4096);
    pu_fill(D, big, 3);
    pu_fill(salt, 32, 8);
    static const size_t chunks[] = {4096, 512, 333, 1000, 4095, 4097, 12289, 1 << 30};
    size_t lim = mc_thorough ? 300 : 135;
    for (size_t b = 1; b <= lim; b++)
        for (int c = 0; c < 8; c++)
            for (int zf = 0; zf < 2; zf++) {
                if (!mc_thorough && b > 6 && b < 126 && (int)(b % 8) != c) continue;
                if (!mc_mine()) continue;
                mc_case("%zu blocks, chunks of %zu, zero fill %d", b, chunks[c], zf);
                base = c % 2 ? 4096 : 0;
                against(b * 4096, 32, chunks[c], 0, zf);
            }
    static const size_t sb[] = {1, 2, 3, 127, 128, 129, 130, 256, 257, 16385};
    for (int bi = 0; bi < 10; bi++)
        for (size_t sl = 0; sl <= 32; sl++)
            for (int zf = 0; zf < 2; zf++) {
                size_t b = sb[bi];
                if (b > 300 && !mc_thorough && (zf || (sl != 0 && sl != 20))) continue;
                if (!mc_mine()) continue;
                mc_case("%zu blocks, salt of %zu bytes, zero fill %d", b, sl, zf);
                base = 512;
                against(b * 4096, sl, b > 300 ? 1 << 20 : 4096, 0, zf);
            }
    for (size_t b = 1; b <= 2; b++)
        for (size_t first = 1; first < b * 4096; first++) {
            if (!mc_thorough && first % 3 && first > 600 && (first < 3900 || first > 4300)) continue;
            if (!mc_mine()) continue;
            mc_case("%zu blocks, split after %zu bytes", b, first);
            base = 512;
            against(b * 4096, 32, 1 << 30, first, true);
        }
    for (size_t b = 1; b <= 2; b++) {
        if (!mc_mine()) continue;
        mc_case("%zu blocks byte by byte", b);
        against(b * 4096, 32, 1, 0, true);
    }
    static const size_t bigs[] = {255, 256, 257, 16383, 16384, 16385, 16384 + 129};
    for (int i = 0; i < 7; i++) {
        if (!mc_mine()) continue;
        mc_case("%zu blocks", bigs[i]);
        base = 0;
        against(bigs[i] * 4096, 32, 1 << 20, 0, true);
    }
    for (size_t b = 1; b <= (mc_thorough ? 300 : 132); b += b < 8 || b > 125 ? 1 : 13) {
        if (!mc_mine()) continue;
        mc_case("verification of the tree of %zu blocks", b);
        verify_tree(b * 4096);
    }
    /* unaligned and empty sizes are refused */
    for (size_t n = 0; n < 12289; n += mc_thorough || n < 600 || (n > 3500 && n < 4700) ? 1 : 64) {
        if (n % 4096 == 0 && n) continue;
        if (!mc_mine()) continue;
        mc_case("size %zu", n);
        static struct bpak_merkle_context c;
        MC_CHECK(bpak_merkle_compute_size(n) < 0, "compute_size accepts %zu", n);
        MC_CHECK(bpak_merkle_init(&c, n, salt, 32, wr, rd, 0, false, NULL) < 0, "init accepts %zu", n);
        mc_eval(1);
    }
    /* geometry around every power of two and every level boundary up to 1 TiB and beyond */
    for (int k = 0; k < 40; k++)
        for (int d = -3; d <= 3; d++) {
            int64_t b = ((int64_t)1 << k) + d;
            if (b < 1) continue;
            if (!mc_mine()) continue;
            mc_case("geometry of %lld blocks", (long long)b);
            geometry(b);
        }
    for (uint64_t b = 1; b < (mc_thorough ? 70000 : 20000); b += 1) {
        if (!mc_mine()) continue;
        mc_case("geometry of %llu blocks", (unsigned long long)b);
        geometry(b);
    }
    /* every failing or short tree operation is reported */
    for (size_t b = 1; b <= 130; b += 129 / 3) {
        for (int m = 0; m < 2; m++) {
            size_t rl; uint8_t rr[32];
            uint8_t *r = pu_merkle(D, b * 4096, salt, 32, &rl, rr);
            free(r);
            tree = calloc(1, rl); tsz = rl; base = 0;
            failmode = m; failop = 1 << 30; nops = 0;
            gen(D, b * 4096, salt, 32, 4096, 0, true, rr);
            long n = nops;
            for (long k = 0; k < n; k++) {
                if (!mc_mine()) continue;
                mc_case("%zu blocks, operation %ld of %ld %s", b, k, n, m ? "short" : "fails");
                memset(tree, 0, rl);
                failop = k; nops = 0;
                int rc = gen(D, b * 4096, salt, 32, 4096, 0, true, rr);
                mc_eval(1);
                MC_CHECK(rc < 0, "the failure was not reported (%d)", rc);
            }
            free(tree);
        }
    }
    failop = -1;
    static const size_t ps[] = {0, 1, 511, 4095, 4096, 4097, 4608, 8192, 12288, 20480, 128 * 4096, 129 * 4096, 130 * 4096 + 512};
    for (int i = 0; i < 13; i++)
        for (int fl = 0; fl < 2; fl++)
            for (int t = 0; t < 2; t++)
                for (int bf = 0; bf < 2; bf++) {
                    if (!mc_mine()) continue;
                    mc_case("%s: add a %zu byte file with hash tree, flags %d, %s part before it", t ? "tool" : "library", ps[i], fl, bf ? "one" : "no");
                    package(ps[i], fl, t, bf);
                }
    pu_free(&A);
    return 0;
}
