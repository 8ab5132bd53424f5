/* C13: crash / torn write / I/O error enumeration over the transport decoder's callbacks. */
#include "mc.h"
#include "pu.h"
#include <bpak/transport.h>
#include <bpak/verify.h>
#include <bpak/crypto.h>
#include <bpak/pkg.h>
#include <setjmp.h>

#define MAXOUT 65536
enum { OP_WOUT, OP_WHDR, OP_RORG, OP_ROUT, OP_PAY };
static const char *opn[] = {"output write", "header write", "origin read", "output read", "payload read"};
enum { F_NONE, F_CRASH, F_ERR, F_SHORT };
static const char *fn[] = {"none", "crash", "error", "short"};
static struct { uint8_t hdr[4096], out[MAXOUT]; } img, snap;
static struct pu tgt, org, enc, sorg;
static struct bpak_key *pub;
/* the fault of this run: the op with global number `at` transfers `bytes` bytes and then fails */
static int f_kind; static long f_at, opno; static size_t f_bytes; static bool f_fired;
static jmp_buf crash;
static struct { uint8_t kind; size_t len; } ops[20000];
static bool rec;

static bool fault(int kind, size_t n, size_t *part)
{
    long k = opno++;
    if (rec) { if (k >= 20000) mc_die("ops"); ops[k].kind = kind; ops[k].len = n; }
    if (f_kind == F_NONE || k != f_at) return false;
    f_fired = true;
    *part = f_bytes < n ? f_bytes : n;
    return true;
}
static ssize_t ret(size_t part, size_t n)
{
    if (f_kind == F_CRASH) longjmp(crash, 1);
    if (f_kind == F_SHORT && part < n) return part;
    return -BPAK_WRITE_ERROR;
}
static size_t datasz; /* payload area of the output medium */
static ssize_t wout(off_t off, uint8_t *b, size_t n, void *u)
{
    size_t p;
    (void)u;
    MC_CHECK(off >= 0 && (size_t)off <= datasz && n <= datasz - (size_t)off, "write of %zu bytes at %lld outside the target's %zu payload bytes", n, (long long)off, datasz);
    if (fault(OP_WOUT, n, &p)) { memcpy(img.out + off, b, p); return ret(p, n); }
    memcpy(img.out + off, b, n);
    return n;
}
static ssize_t whdr(off_t off, uint8_t *b, size_t n, void *u)
{
    size_t p;
    (void)u;
    MC_CHECK(off == 0 && n == 4096, "header write of %zu bytes at %lld", n, (long long)off);
    if (fault(OP_WHDR, n, &p)) { memcpy(img.hdr, b, p); return ret(p, n); }
    memcpy(img.hdr, b, n);
    return n;
}
static ssize_t rorg(off_t off, uint8_t *b, size_t n, void *u)
{
    size_t p;
    (void)u;
    if (off < 0 || (size_t)off > org.len || n > org.len - (size_t)off) return -1;
    if (fault(OP_RORG, n, &p)) { memcpy(b, org.data + off, p); return ret(p, n); }
    memcpy(b, org.data + off, n);
    return n;
}
static ssize_t rout(off_t off, uint8_t *b, size_t n, void *u)
{
    size_t p;
    (void)u;
    if (off < 0 || (size_t)off > datasz || n > datasz - (size_t)off) return -1;
    if (fault(OP_ROUT, n, &p)) { memcpy(b, img.out + off, p); return ret(p, n); }
    memcpy(b, img.out + off, n);
    return n;
}
static ssize_t vrd(off_t off, uint8_t *b, size_t n, void *u)
{
    (void)u;
    if (off < 0 || (size_t)off > datasz || n > datasz - (size_t)off) return -1;
    memcpy(b, img.out + off, n);
    return n;
}
#define CHUNK 700
/* the decode loop of an updating device; payload faults: short = nothing more arrives, finish is called anyway */
static int decode(void)
{
    static struct bpak_transport_decode c;
    static struct bpak_header h;
    static uint8_t work[512];
    int rc;
    opno = 0; f_fired = false;
    memset(&c, 0x5A, sizeof c);
    h = enc.h;
    if (setjmp(crash)) { bpak_transport_decode_free(&c); return 12345; }
    rc = bpak_transport_decode_init(&c, work, sizeof work, &h, wout, rout, 0, whdr, NULL);
    if (rc) return rc;
    rc = bpak_transport_decode_set_origin(&c, &org.h, rorg, 0);
    if (rc) goto out;
    for (int i = 0; i < 32 && h.parts[i].id; i++) {
        size_t n = pu_stored(&enc.h.parts[i]), o = pu_offset(&enc.h, i) - 4096, p;
        rc = bpak_transport_decode_start(&c, &h.parts[i]);
        if (rc) goto out;
        while (n) {
            uint8_t b[CHUNK];
            size_t k = n < CHUNK ? n : CHUNK;
            memcpy(b, enc.data + o, k);
            if (fault(OP_PAY, k, &p)) {
                if (f_kind == F_CRASH) { rc = 12345; goto out; }
                if (p) { rc = bpak_transport_decode_write_chunk(&c, b, p); if (rc) goto out; }
                break;
            }
            rc = bpak_transport_decode_write_chunk(&c, b, k);
            if (rc) goto out;
            n -= k; o += k;
        }
        rc = bpak_transport_decode_finish(&c);
        if (rc) goto out;
    }
out:
    bpak_transport_decode_free(&c);
    mc_trans(1);
    return rc;
}
static bool accepted(void)
{
    static struct { uint64_t h; bool ok; } cache[4096];
    static struct bpak_header h;
    uint8_t dig[64];
    size_t dl = sizeof dig;
    memcpy(&h, img.hdr, 4096);
    if (bpak_valid_header(&h) != BPAK_OK) return false;
    if (bpak_verify_payload(&h, vrd, 0, NULL) != BPAK_OK) return false;
    uint64_t k = mc_hash(&h, 4096, 1);
    if (cache[k % 4096].h == k) return cache[k % 4096].ok;
    bool ok = false;
    int rc = bpak_verify_compute_header_hash(&h, dig, &dl);
    if (rc == 0) {
        rc = bpak_crypto_verify(h.signature, h.signature_sz, dig, dl, h.hash_kind, pub, &ok);
        if (rc) ok = false;
    } 
    cache[k % 4096].h = k; cache[k % 4096].ok = ok;
    return ok;
}
/* every byte verification covers is the target's */
static bool covered_equal(void)
{
    if (memcmp(img.hdr, &tgt.h, 4096)) return false;
    for (int i = 0; i < 32 && tgt.h.parts[i].id; i++) {
        struct bpak_part_header *p = &tgt.h.parts[i];
        bool cov = !(p->flags & 1);
        for (int k = 0; k < 32; k++)
            if (tgt.h.meta[k].id == pu_id("merkle-root-hash") && (tgt.h.meta[k].part_id_ref == p->id || pu_tree_id(tgt.h.meta[k].part_id_ref) == p->id)) cov = true;
        size_t o = pu_offset(&tgt.h, i) - 4096;
        if (cov && memcmp(img.out + o, tgt.data + o, pu_stored(p))) return false;
    }
    return true;
}
static bool complete(void) { return !memcmp(img.hdr, &tgt.h, 4096) && !memcmp(img.out, tgt.data, tgt.len); }
static uint8_t R[40000], Q[40000];
static const char *cfgn[] = {"copy+bsdiff+copy", "fs bsdiff with regenerated tree", "bsdiff-no-comp+bsdiff-lzma", "excluded fs copied, regenerated tree, excluded blob", "two hash trees"};
static void config(int k)
{
    static uint8_t b[20000];
    pu_init(&tgt, 1); pu_init(&org, 1);
    pu_uuid(&tgt, 1); pu_uuid(&org, 1);
    pu_meta(&tgt, pu_id("bpak-version"), 0, "2.0.0", 6);
    memcpy(b, R, sizeof b);
    switch (k) {
    case 0:
        pu_part(&tgt, pu_id("k"), Q, 1500, 0); pu_part(&org, pu_id("k"), R, 100, 0);
        b[40] ^= 1; b[600] ^= 8;
        pu_part(&tgt, pu_id("a"), b, 1000, 0); pu_part(&org, pu_id("a"), R, 1100, 0); pu_transport(&tgt, pu_id("a"), "bsdiff", "bspatch");
        pu_part(&tgt, pu_id("z"), Q + 9, 600, 0); pu_part(&org, pu_id("z"), Q + 9, 600, 0);
        break;
    case 1:
        b[5000] ^= 4;
        pu_merkle_parts(&tgt, "fs", b, 8192, 0, 7); pu_merkle_parts(&org, "fs", R, 8192, 0, 3);
        pu_transport(&tgt, pu_id("fs"), "bsdiff", "bspatch"); pu_transport(&tgt, pu_tree_id(pu_id("fs")), "remove-data", "merkle-generate");
        break;
    case 2:
        memmove(b + 300, R + 200, 900);
        pu_part(&tgt, pu_id("a"), b, 1200, 0); pu_part(&org, pu_id("a"), R, 1100, 0); pu_transport(&tgt, pu_id("a"), "bsdiff-no-comp", "bspatch-no-comp");
        pu_part(&tgt, pu_id("b"), Q, 800, 0); pu_part(&org, pu_id("b"), R, 1100, 0); pu_transport(&tgt, pu_id("b"), "bsdiff-lzma", "bspatch-lzma");
        break;
    case 3:
        pu_merkle_parts(&tgt, "fs", b, 4096, 1, 7); pu_merkle_parts(&org, "fs", R, 4096, 1, 3);
        pu_transport(&tgt, pu_tree_id(pu_id("fs")), "remove-data", "merkle-generate");
        pu_part(&tgt, pu_id("blob"), Q, 700, 1);
        break;
    case 4:
        b[7] ^= 4;
        pu_merkle_parts(&tgt, "fs", b, 4096, 1, 7); pu_merkle_parts(&org, "fs", R, 4096, 1, 3);
        pu_transport(&tgt, pu_id("fs"), "bsdiff-lzma", "bspatch-lzma"); pu_transport(&tgt, pu_tree_id(pu_id("fs")), "remove-data", "merkle-generate");
        pu_merkle_parts(&org, "g", R, 4096, 0, 1); pu_merkle_parts(&tgt, "g", Q, 4096, 0, 9); pu_transport(&tgt, pu_tree_id(pu_id("g")), "remove-data", "merkle-generate");
        break;
    }
    pu_rehash(&tgt); pu_rehash(&org);
    pu_sign(&tgt, pu_key("p256-a.pem")); pu_sign(&org, pu_key("p256-a.pem"));
    static char tf[300], of[300], ef[300];
    static struct bpak_package i, o, g;
    strcpy(tf, mc_path("t")); strcpy(of, mc_path("o")); strcpy(ef, mc_path("e"));
    pu_save(&tgt, tf); pu_save(&org, of);
    if (bpak_pkg_open(&i, tf, "rb") || bpak_pkg_open(&g, of, "rb") || bpak_pkg_open(&o, ef, "wb+")) mc_fail("open");
    int rc = bpak_pkg_transport_encode(&i, &o, &g);
    MC_CHECK(rc == 0, "encode returned %d", rc);
    bpak_pkg_close(&i); bpak_pkg_close(&o); bpak_pkg_close(&g);
    if (!pu_load(&enc, ef)) mc_fail("no encoded package");
    datasz = tgt.len;
}
static const char *initn[] = {"zeros", "the origin package", "the target with one byte damaged", "0xff", "the complete target"};
static void initial(int k)
{
    memset(&img, k == 3 ? 0xff : 0, sizeof img);
    if (k == 1) { memcpy(img.hdr, &org.h, 4096); memcpy(img.out, org.data, org.len < datasz ? org.len : datasz); }
    if (k == 2 || k == 4) { memcpy(img.hdr, &tgt.h, 4096); memcpy(img.out, tgt.data, tgt.len); }
    if (k == 2) img.out[tgt.len > 4000 ? 3000 : 20] ^= 0x10;
}
static void check_output(bool untouched_ok)
{
    mc_eval(1);
    bool a = accepted();
    mc_distinct(mc_hash(&img, 4096 + datasz, a));
    if (a && !covered_equal() && !(untouched_ok && !memcmp(&img, &snap, sizeof img)))
        mc_fail("the output passes verification although it is not the target package");
}
static void retry(void)
{
    f_kind = F_NONE;
    int rc = decode();
    MC_CHECK(rc == 0, "repeating the decode returned %d", rc);
    MC_CHECK(complete(), "repeating the decode did not produce the target");
    MC_CHECK(accepted(), "repeated decode does not verify");
}
int mc_run(void)
{
    pu_fill(R, sizeof R, 1); pu_fill(Q, sizeof Q, 2);
    for (size_t i = 0; i < sizeof R; i += 2) R[i] = i / 100;
    if (bpak_crypto_load_public_key(pu_key("p256-a.pub.pem"), &pub)) mc_fail("cannot load key");
    for (int cfg = 0; cfg < 5; cfg++) {
        mc_case("%s: fault free", cfgn[cfg]);
        config(cfg);
        initial(0);
        f_kind = F_NONE; rec = true;
        int rc = decode();
        rec = false;
        long nops = opno;
        MC_CHECK(rc == 0 && complete(), "decode without faults returned %d", rc);
        MC_CHECK(accepted(), "decoded package does not verify");
        mc_note("callback operations", mc_shard == 0 ? nops : 0);
        static struct { uint8_t kind; size_t len; } o1[20000];
        memcpy(o1, ops, sizeof ops);
        for (int ini = 0; ini < 5; ini++)
            for (long k = 0; k < nops; k++)
                for (int f = F_CRASH; f <= F_SHORT; f++) {
                    if (!mc_mine()) continue;
                    bool iswr = o1[k].kind <= OP_WHDR;
                    size_t n = o1[k].len, step = !iswr ? n : mc_thorough ? 8 : n > 1000 ? 136 : n / 2;
                    if (o1[k].kind == OP_WHDR && ini == 1 && f == F_CRASH) step = mc_thorough ? 1 : 24;
                    if (step < 1) step = 1;
                    for (size_t by = 0;; by += step) {
                        if (by >= n) { if (n == 0 || by >= n + step - 1) break; by = n - (f == F_CRASH ? 0 : 1); }
                        mc_case("%s, output initially %s, %s at operation %ld (%s of %zu bytes) after %zu bytes", cfgn[cfg], initn[ini], fn[f], k, opn[o1[k].kind], n, by);
                        initial(ini);
                        snap = img;
                        f_kind = f; f_at = k; f_bytes = by;
                        rc = decode();
                        if (!f_fired) mc_fail("run is not deterministic");
                        MC_CHECK(rc != 0, "the failure was not reported");
                        check_output(ini == 1 || ini == 4 || ini == 2);
                        if (f == F_CRASH || by == 0) retry();
                        if (by >= n - (f == F_CRASH ? 0 : 1)) break;
                    }
                }
        /* two interruptions in a row */
        long stride = mc_thorough ? 1 + nops / 300 : 1 + nops / 40;
        for (long k = 0; k < nops; k += stride)
            for (long j = 0; j < nops; j += stride) {
                if (!mc_mine()) continue;
                mc_case("%s, output initially the origin package, crash in the middle of operation %ld, then of the repeated decode in operation %ld", cfgn[cfg], k, j);
                initial(1);
                snap = img;
                f_kind = F_CRASH; f_at = k; f_bytes = o1[k].len / 2;
                decode(); check_output(true);
                f_kind = F_CRASH; f_at = j; f_bytes = o1[j].len / 3;
                decode(); check_output(true);
                retry();
            }
        pu_free(&tgt); pu_free(&org);
    }
    return 0;
}
