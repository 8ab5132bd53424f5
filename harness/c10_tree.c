/* C10: tampering with hash-tree protected data, trees, roots and salts. */
#include "mc.h"
#include "pu.h"
#include <bpak/verify.h>
#include <bpak/pkg.h>
#include <bpak/crypto.h>

static struct pu P;
static struct bpak_key *pub;
static ssize_t vrd(off_t o, uint8_t *b, size_t n, void *u)
{
    (void)u;
    if (o < 100 || (size_t)(o - 100) > P.len || n > P.len - (size_t)(o - 100)) return -1;
    memcpy(b, P.data + (o - 100), n);
    return n;
}
/* the n-th read gives less than asked for, or fails */
static int nread, bad_at, bad_kind;
static ssize_t frd(off_t o, uint8_t *b, size_t n, void *u)
{
    if (++nread != bad_at) return vrd(o, b, n, u);
    if (bad_kind == 4) return -5;
    size_t l = bad_kind == 0 ? 0 : bad_kind == 1 ? n - 1 : bad_kind == 2 ? n / 2 : 1;
    if (l >= n) l = n - 1;
    ssize_t r = l ? vrd(o, b, l, u) : 0;
    return r;
}
static int verify(void) { mc_trans(1); mc_eval(1); return bpak_verify_payload(&P.h, vrd, 100, NULL); }
static uint8_t R[700000];
/* layouts: number of blocks of two trees, order, extra parts */
enum { NL = 8 };
static const char *ln[] = {"one block", "two blocks", "three blocks, plain parts around", "two trees", "tree stored before its data", "parts hashed as well as protected", "129 blocks (two levels)", "transport-encoded part in front"};
static void treepart(const char *n, size_t len, int flags, int salt, bool tree_first, int mode)
{
    uint8_t s[32], root[32], *t;
    size_t tl;
    uint32_t id = pu_id(n);
    for (int i = 0; i < 32; i++) s[i] = salt + 5 * i;
    t = pu_merkle(R + salt, len, s, 32, &tl, root);
    if (tree_first && mode != 2) pu_part(&P, pu_tree_id(id), t, tl, flags);
    pu_part(&P, id, R + salt, len, flags);
    if (!tree_first && mode != 2) pu_part(&P, pu_tree_id(id), t, tl, flags);
    if (mode != 1) pu_meta(&P, pu_id("merkle-salt"), id, s, 32);
    if (mode != 3) pu_meta(&P, pu_id("merkle-root-hash"), id, root, 32);
    free(t);
}
static void build(int l, int mode) /* mode 1: no salt, 2: no tree part, 3: no root */
{
    pu_init(&P, 1);
    switch (l) {
    case 0: treepart("fs", 4096, 1, 3, false, mode); break;
    case 1: treepart("fs", 8192, 1, 3, false, mode); break;
    case 2: pu_part(&P, pu_id("a"), R, 300, 0); treepart("fs", 12288, 1, 9, false, mode); pu_part(&P, pu_id("b"), R, 900, 1); break;
    case 3: treepart("fs", 4096, 1, 3, false, 0); treepart("gs", 8192, 1, 77, false, mode); break;
    case 4: pu_part(&P, pu_id("a"), R, 300, 1); treepart("fs", 8192, 1, 3, true, mode); break;
    case 5: treepart("fs", 8192, 0, 3, false, mode); break;
    case 6: treepart("fs", 129 * 4096, 1, 3, false, mode); break;
    case 7: pu_part_t(&P, pu_id("t"), R, 77, 5000, 120, 2 | 1); treepart("fs", 8192, 1, 3, false, mode); break;
    }
    pu_rehash(&P);
}
/* verification over reads of which any one comes back short: never a success, whether or not the data is intact */
static void short_reads(int l)
{
    build(l, 0);
    nread = bad_at = 0;
    bpak_verify_payload(&P.h, frd, 100, NULL);
    int calls = nread;
    /* the places that are changed: none, and one byte in every hash of the trees and every block of the data */
    for (int part = -1; part < 32; part++) {
        if (part >= 0 && !P.h.parts[part].id) break;
        uint32_t pid = part < 0 ? 0 : P.h.parts[part].id;
        bool istree = pid == pu_tree_id(pu_id("fs")) || pid == pu_tree_id(pu_id("gs"));
        if (part >= 0 && !istree && pid != pu_id("fs") && pid != pu_id("gs")) continue;
        size_t o = part < 0 ? 0 : pu_offset(&P.h, part) - 4096, n = part < 0 ? 1 : pu_stored(&P.h.parts[part]);
        for (size_t b = 0; b < n; b += istree ? 32 : 4096) {
            if (l == 6 && part >= 0 && b % (istree ? 1024 : 65536)) continue;
            if ((l == 0 || (l == 3 && pid == pu_tree_id(pu_id("fs")))) && istree && b >= 32) break;
            if (!mc_mine()) continue;
            for (int at = 0; at < 3; at++) {
                size_t x = o + b + (at == 0 ? 0 : at == 1 ? (istree ? 31 : 4095) : (istree ? 17 : 2000));
                if (part >= 0) P.data[x] ^= 0x10;
                for (bad_at = 1; bad_at <= calls; bad_at++)
                    for (bad_kind = 0; bad_kind < (l == 6 ? 2 : 5); bad_kind++) {
                        if (l == 6 && bad_at > 40 && bad_at < calls - 40 && bad_at % 37) continue;
                        mc_case("%s: byte %zu of part %d changed, read %d of %d %s", ln[l], x, part, bad_at, calls, ((const char *[]){"gives nothing", "gives one byte less", "gives half", "gives one byte", "fails"})[bad_kind]);
                        nread = 0;
                        int rc = bpak_verify_payload(&P.h, frd, 100, NULL);
                        mc_trans(1); mc_eval(1);
                        if (part >= 0) MC_CHECK(rc != 0, "a changed byte is not detected when a read comes back short");
                        else MC_CHECK(rc != 0 || nread < bad_at, "verification succeeds although a read came back short");
                    }
                bad_at = 0;
                if (part >= 0) P.data[x] ^= 0x10;
                if (part < 0) break;
            }
        }
    }
    pu_free(&P);
}
/* root hashes and salts with a zero byte at every position, and the bytes after it changed */
static void zero_bytes(void)
{
    uint8_t s[32], root[32], *t;
    size_t tl;
    for (int nb = 1; nb < 4; nb++)
        for (int z = 0; z < 32; z++) {
            if (!mc_mine()) continue;
            mc_case("%d blocks, byte %d of the root hash is zero", nb, z);
            int salt = 0;
            for (;; salt++) {
                memset(s, 0, 32); memcpy(s, &salt, 4);
                t = pu_merkle(R, nb * 4096, s, 32, &tl, root);
                if (!root[z]) break;
                free(t);
            }
            pu_init(&P, 1);
            pu_part(&P, pu_id("fs"), R, nb * 4096, 1);
            pu_part(&P, pu_tree_id(pu_id("fs")), t, tl, 1);
            struct bpak_meta_header *ms = pu_meta(&P, pu_id("merkle-salt"), pu_id("fs"), s, 32), *mr = pu_meta(&P, pu_id("merkle-root-hash"), pu_id("fs"), root, 32);
            pu_rehash(&P);
            free(t);
            MC_CHECK(verify() == 0, "the unmodified package is rejected");
            for (int i = 0; i < 64; i++) {
                uint8_t *x = P.h.metadata + (i < 32 ? mr->offset + i : ms->offset + i - 32);
                for (int v = 1; v < 256; v += i < 32 ? 1 : 51) {
                    *x ^= v;
                    MC_CHECK(verify() != 0, "changed byte %d of the %s is not detected", i % 32, i < 32 ? "root hash" : "salt");
                    *x ^= v;
                }
            }
            pu_free(&P);
        }
}
int mc_run(void)
{
    pu_fill(R, sizeof R, 6);
    if (bpak_crypto_load_public_key(pu_key("p256-a.pub.pem"), &pub)) mc_fail("key");
    zero_bytes();
    for (int l = 0; l < NL; l++) {
        short_reads(l);
        const char *name = l == 3 ? "gs" : "fs";
        uint32_t id = pu_id(name), tid = pu_tree_id(id);
        build(l, 0);
        mc_case("%s: unmodified", ln[l]);
        MC_CHECK(verify() == 0, "the unmodified package is rejected");
        /* every bit of every protected part and tree */
        for (int i = 0; i < 32 && P.h.parts[i].id; i++) {
            uint32_t pid = P.h.parts[i].id;
            bool prot = pid == pu_id("fs") || pid == pu_id("gs") || pid == pu_tree_id(pu_id("fs")) || pid == pu_tree_id(pu_id("gs"));
            bool istree = pid == pu_tree_id(pu_id("fs")) || pid == pu_tree_id(pu_id("gs"));
            size_t o = pu_offset(&P.h, i) - 4096, n = pu_stored(&P.h.parts[i]);
            size_t step = l == 6 ? (mc_thorough ? 997 : 7919) : mc_thorough || n < 5000 ? 1 : 3;
            for (size_t b = 0; b < n * 8; b += step) {
                if (!mc_mine()) continue;
                if ((l == 0 || (l == 3 && pid == pu_tree_id(pu_id("fs")))) && istree && b >= 256) continue; /* a one block tree: only the first hash contributes */
                mc_case("%s: bit %zu of part %d", ln[l], b, i);
                P.data[o + b / 8] ^= 1 << b % 8;
                int rc = verify();
                P.data[o + b / 8] ^= 1 << b % 8;
                mc_distinct(mc_hash(&rc, 4, prot));
                if (prot) MC_CHECK(rc != 0, "change of a protected byte is not detected");
                else if (P.h.parts[i].flags & 1) MC_CHECK(rc == 0, "change of an unprotected excluded part rejected");
            }
        }
        for (int m = 0; m < 32; m++) {
            struct bpak_meta_header *h = &P.h.meta[m];
            if (!h->id) continue;
            for (int b = 0; b < h->size * 8; b++) {
                if (!mc_mine()) continue;
                mc_case("%s: bit %d of metadata %08x of %08x", ln[l], b, h->id, h->part_id_ref);
                P.h.metadata[h->offset + b / 8] ^= 1 << b % 8;
                MC_CHECK(verify() != 0, "a changed root hash or salt is not detected");
                P.h.metadata[h->offset + b / 8] ^= 1 << b % 8;
            }
        }
        if (mc_mine()) {
            mc_case("%s: truncations", ln[l]);
            int ti = pu_find(&P.h, tid), di = pu_find(&P.h, id);
            if (ti < 0 || di < 0) mc_die("layout");
            size_t full = P.len;
            size_t end = pu_offset(&P.h, ti > di ? ti : di) - 4096 + 4096;
            if (l == 0) end = 4096 + 32;
            for (size_t n = 0; n < end; n += n < 4200 ? 64 : 613) {
                P.len = n;
                MC_CHECK(verify() != 0, "payload truncated to %zu bytes accepted", n);
            }
            P.len = full;
        }
        if (l != 6) for (size_t a = 0; a + 512 <= P.len; a += 512)
            for (size_t b = a + 512; b + 512 <= P.len; b += 512) {
                if (!mc_mine()) continue;
                uint8_t t[512];
                mc_case("%s: 512 byte blocks at %zu and %zu swapped", ln[l], a, b);
                if (!memcmp(P.data + a, P.data + b, 512)) continue;
                bool prot = false;
                for (int i = 0; i < 32 && P.h.parts[i].id; i++) {
                    size_t o = pu_offset(&P.h, i) - 4096, n = pu_stored(&P.h.parts[i]);
                    uint32_t pid = P.h.parts[i].id;
                    bool pr = pid == pu_id("fs") || pid == pu_id("gs") || pid == pu_tree_id(pu_id("fs")) || pid == pu_tree_id(pu_id("gs"));
                    if (pr && ((a >= o && a < o + n) || (b >= o && b < o + n))) prot = true;
                }
                if (l == 0 || l == 3) /* unused tree padding is swapped with other padding only when equal */
                    if (!prot) continue;
                memcpy(t, P.data + a, 512); memcpy(P.data + a, P.data + b, 512); memcpy(P.data + b, t, 512);
                int rc = verify();
                memcpy(t, P.data + a, 512); memcpy(P.data + a, P.data + b, 512); memcpy(P.data + b, t, 512);
                if (prot) MC_CHECK(rc != 0, "swapped protected blocks accepted");
            }
        pu_free(&P);
        for (int mode = 0; mode < 4; mode++)
            for (int how = 0; how < 3; how++) {
                static char f[300];
                if (!mc_mine()) continue;
                mc_case("%s: %s missing, %s", ln[l], ((const char *[]){"nothing", "salt", "tree part", "root hash"})[mode], how == 0 ? "payload verification" : how == 1 ? "package verification" : "tool");
                build(l, mode);
                if (how == 0) {
                    int rc = verify();
                    MC_CHECK((rc == 0) == (mode == 0 || mode == 3), "verification returned %d", rc);
                } else {
                    strcpy(f, mc_path("p"));
                    pu_sign(&P, pu_key("p256-a.pem"));
                    pu_save(&P, f);
                    int rc;
                    if (how == 2) rc = tool("", "verify", f, "--key", pu_key("p256-a.pub.pem"), NULL);
                    else {
                        struct bpak_package p;
                        if (bpak_pkg_open(&p, f, "rb")) mc_fail("open");
                        rc = bpak_pkg_verify(&p, pub);
                        bpak_pkg_close(&p);
                    }
                    mc_eval(1);
                    MC_CHECK((rc == 0) == (mode == 0 || mode == 3), "verification returned %d", rc);
                    if (mode == 0) { /* and with one protected byte changed in the file */
                        int di = pu_find(&P.h, id);
                        P.data[pu_offset(&P.h, di) - 4096 + 1234] ^= 4;
                        pu_save(&P, f);
                        if (how == 2) rc = tool("", "verify", f, "--key", pu_key("p256-a.pub.pem"), NULL);
                        else {
                            struct bpak_package p;
                            if (bpak_pkg_open(&p, f, "rb")) mc_fail("open");
                            rc = bpak_pkg_verify(&p, pub);
                            bpak_pkg_close(&p);
                        }
                        MC_CHECK(rc != 0, "tampered package verifies");
                    }
                }
                pu_free(&P);
            }
    }
    return 0;
}
