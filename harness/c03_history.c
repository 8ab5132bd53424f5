/* C03: archive content after every history of part operations equals the reference. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <unistd.h>
#include <sys/stat.h>
#include <mbedtls/pk.h>

struct src { const char *file; uint8_t *d; size_t n; };
static struct src S[24];
enum { F0, F1, F512, F513, F4096, F5000, F8192, F9001, FM4, FM8, FM516, K_RSA, K_EC, FL0, FL1, FL2, FL3, FL4, FLM, NSRC };
struct mp { uint32_t id; uint8_t *d; size_t n; int flags; int enc; uint64_t size; int pad; bool own; };
struct mm { uint32_t id, ref; uint16_t n; uint8_t v[1920]; };
static struct model {
    struct mp p[40]; int np;
    struct mm m[40]; int nm;
    struct bpak_header base;     /* every header field that part operations must not touch */
    bool offs;                   /* raw offset field comparable (no transport-encoded part involved) */
} M;
static struct bpak_package pkg;
static char ar[300];
static bool use_tool, open_now;
static uint8_t *oldf; static size_t oldn;

struct op { int k; const char *name; int src; int flags; };
enum { ADD, KEY, MRK, DEL, DELK, ALL, ALLK, REOPEN, META };
static const struct op OPS[] = {
    {ADD, "a", F1, 0}, {ADD, "a", F0, 1}, {ADD, "b", F513, 1}, {ADD, "b", F9001, 0}, {ADD, "c", F8192, 0},
    {KEY, "k", K_RSA, 0}, {KEY, "b", K_EC, 1}, {MRK, "fs", FM8, 0}, {MRK, "a", FM4, 1},
    {DEL, "a"}, {DEL, "b"}, {DEL, "fs"}, {DEL, "fs-hash-tree"}, {DELK, "a"}, {DELK, "fs"}, {DEL, "k"}, {DEL, "t"},
    {ALL, ""}, {ALLK, ""}, {REOPEN, ""}, {META, "a"}, {META, "fs"},
    /* the remaining ones only in the thorough tier and in the short histories */
    {ADD, "d", F512, 0}, {ADD, "e", F4096, 1}, {ADD, "c", F5000, 1}, {MRK, "fs", FM516, 1}, {DEL, "c"}, {DEL, "missing"}, {DELK, "b"},
    /* sizes around 64 KiB and above 1 MiB */
    {ADD, "a", FL0, 0}, {ADD, "b", FL1, 1}, {ADD, "c", FL3, 0}, {MRK, "fs", FLM, 0}, {DEL, "a"}, {DEL, "b"}, {DEL, "fs"}, {ADD, "e", F1, 0}, {ADD, "b", FL2, 0}, {ADD, "d", FL4, 0},
};
#define NBIG 10
#define NALL ((int)(sizeof OPS / sizeof *OPS) - NBIG)
#define NQ 22

static const char *opname(const struct op *o)
{
    static char r[4][80]; static int k; char *b = r[k++ & 3];
    static const char *n[] = {"add-file", "add-key", "add-merkle", "delete", "delete-keep-meta", "delete-all", "delete-all-keep-meta", "reopen", "add-meta-for"};
    snprintf(b, 80, "%s(%s%s%s%s)", n[o->k], o->name, o->k <= MRK ? "," : "", o->k <= MRK ? strrchr(S[o->src].file, '/') + 1 : "", o->k <= MRK && o->flags ? ",dont-hash" : "");
    return b;
}
static void add_src(int i, const char *name, size_t n)
{
    S[i].d = malloc(n + 1);
    S[i].n = n;
    pu_fill(S[i].d, n, 77 + i);
    S[i].file = strdup(mc_path(name));
    mc_write_file(S[i].file, S[i].d, n);
}
static void add_key(int i, const char *name)
{
    char b[64];
    mbedtls_pk_context k;
    uint8_t der[2000];
    snprintf(b, 64, "%s.pub.pem", name);
    S[i].file = strdup(pu_key(b));
    mbedtls_pk_init(&k);
    if (mbedtls_pk_parse_public_keyfile(&k, S[i].file)) mc_die("key");
    int n = mbedtls_pk_write_pubkey_der(&k, der, sizeof der);
    if (n <= 0) mc_die("der");
    S[i].d = malloc(n); S[i].n = n;
    memcpy(S[i].d, der + sizeof der - n, n);
    mbedtls_pk_free(&k);
}
static int mfind(uint32_t id) { for (int i = 0; i < M.np; i++) if (M.p[i].id == id) return i; return -1; }
static void mdel(int i) { if (M.p[i].own) free(M.p[i].d); memmove(&M.p[i], &M.p[i + 1], sizeof(M.p[0]) * (M.np - i - 1)); M.np--; }
static void mclear(void) { while (M.np) mdel(M.np - 1); M.nm = 0; }
static size_t mspace(void)
{
    /* first-fit append layout: entries are kept in insertion order, each 8-byte aligned */
    size_t o = 0;
    for (int i = 0; i < M.nm; i++) o = (o + M.m[i].n + 7) & ~7u;
    return o;
}
static bool mmeta(uint32_t id, uint32_t ref, const void *v, size_t n)
{
    for (int i = 0; i < M.nm; i++) if (M.m[i].id == id && M.m[i].ref == ref) return false;
    if (M.nm == 32 || mspace() + n > 1920) return false;
    M.m[M.nm].id = id; M.m[M.nm].ref = ref; M.m[M.nm].n = n;
    memcpy(M.m[M.nm].v, v, n);
    M.nm++;
    return true;
}
static void mdelmeta(uint32_t ref, bool all)
{
    for (int i = 0; i < M.nm;)
        if (all ? M.m[i].ref != 0 : M.m[i].ref == ref) { memmove(&M.m[i], &M.m[i + 1], sizeof(M.m[0]) * (M.nm - i - 1)); M.nm--; }
        else i++;
}
static bool madd(uint32_t id, const uint8_t *d, size_t n, int flags, bool own)
{
    if (M.np == 32 || mfind(id) >= 0) return false;
    M.p[M.np++] = (struct mp){.id = id, .d = (uint8_t *)d, .n = n, .flags = flags, .size = n, .pad = (512 - n % 512) % 512, .own = own};
    return true;
}

/* expected archive, built only from the model */
static struct pu X;
static bool xvalid;
static void expected(void)
{
    if (!xvalid) { pu_init(&X, 1); xvalid = true; }
    X.h = M.base; X.len = 0;
    memset(X.h.parts, 0, sizeof X.h.parts); memset(X.h.meta, 0, sizeof X.h.meta); memset(X.h.metadata, 0, sizeof X.h.metadata);
    for (int i = 0; i < M.np; i++) {
        if (M.p[i].enc) pu_part_t(&X, M.p[i].id, M.p[i].d, M.p[i].n, M.p[i].size, M.p[i].pad, M.p[i].flags);
        else pu_part(&X, M.p[i].id, M.p[i].d, M.p[i].n, M.p[i].flags);
    }
    for (int i = 0; i < M.nm; i++) pu_meta(&X, M.m[i].id, M.m[i].ref, M.m[i].v, M.m[i].n);
    pu_rehash(&X);
}
static void check(void)
{
    static struct pu A;
    if (open_now) fflush(pkg.fp);
    MC_CHECK(pu_load(&A, ar), "archive unreadable");
    expected();
    if (!M.offs) for (int i = 0; i < 32; i++) X.h.parts[i].offset = A.h.parts[i].offset;
    mc_eval(1);
    for (int i = 0; i < 32; i++)
        MC_CHECK(!memcmp(&A.h.parts[i], &X.h.parts[i], 32), "part slot %d: %s expected %s", i, mc_hex(&A.h.parts[i], 32), mc_hex(&X.h.parts[i], 32));
    for (int i = 0; i < 32; i++)
        MC_CHECK(!memcmp(&A.h.meta[i], &X.h.meta[i], 16), "metadata slot %d: %s expected %s", i, mc_hex(&A.h.meta[i], 16), mc_hex(&X.h.meta[i], 16));
    MC_CHECK(!memcmp(A.h.metadata, X.h.metadata, 1920), "metadata bytes differ");
    MC_CHECK(A.len == X.len, "file holds %zu payload bytes, expected %zu", A.len, X.len);
    for (size_t i = 0; i < A.len; i++) MC_CHECK(A.data[i] == X.data[i], "payload byte %zu is %02x expected %02x", i, A.data[i], X.data[i]);
    MC_CHECK(!memcmp(A.h.payload_hash, X.h.payload_hash, 64), "payload hash %s expected %s", mc_hex(A.h.payload_hash, 64), mc_hex(X.h.payload_hash, 64));
    MC_CHECK(!memcmp(&A.h, &X.h, 4096), "other header fields changed");
    MC_CHECK(bpak_valid_header(&A.h) == BPAK_OK, "header invalid");
    if (open_now) {
        MC_CHECK(!memcmp(&pkg.header, &A.h, 4096), "in-memory header differs from the file");
    }
}
static void check_extract(void)
{
    const char *out = mc_path("x.out");
    for (int i = 0; i < M.np; i++) {
        if (M.p[i].enc) continue;
        unlink(out);
        int rc;
        if (use_tool) {
            char idb[16];
            snprintf(idb, 16, "0x%x", M.p[i].id);
            rc = tool("", "extract", ar, "--part", idb, "--output", out, NULL);
        } else rc = bpak_pkg_extract_file(&pkg, M.p[i].id, out);
        size_t n;
        uint8_t *d = mc_read_file(out, &n);
        MC_CHECK(rc == 0 && d && n == M.p[i].n && !memcmp(d, M.p[i].d, n), "extracting part %x returned %d, %zu bytes (expected %zu)", M.p[i].id, rc, d ? n : 0, M.p[i].n);
        free(d);
    }
}
static void do_open(void) { int rc = bpak_pkg_open(&pkg, ar, "r+"); MC_CHECK(rc == 0, "cannot reopen archive: %d", rc); open_now = true; }

static void apply(const struct op *o, bool chk)
{
    int rc = 0;
    bool ok = true;
    uint32_t id = pu_id(o->name);
    mc_trans(1);
    if (open_now) fflush(pkg.fp);
    free(oldf);
    oldf = mc_read_file(ar, &oldn);
    char rs[16]; snprintf(rs, 16, "0x%x", id);
    switch (o->k) {
    case ADD: case KEY: {
        ok = madd(id, S[o->src].d, S[o->src].n, o->flags, false);
        if (use_tool) {
            char *av[12] = {"bpak", "add", ar, "--part", (char *)o->name, "--from-file", (char *)S[o->src].file};
            int n = 7;
            if (o->k == KEY) { av[n++] = "--encoder"; av[n++] = "key"; }
            if (o->flags) { av[n++] = "--set-flag"; av[n++] = "dont-hash"; }
            rc = toolv("", av);
        } else rc = o->k == ADD ? bpak_pkg_add_file(&pkg, S[o->src].file, o->name, o->flags) : bpak_pkg_add_key(&pkg, S[o->src].file, o->name, o->flags);
        break; }
    case MRK: {
        uint32_t tid = pu_tree_id(id);
        uint8_t z[32] = {0}, root[32];
        struct model *sv = malloc(sizeof M);
        *sv = M;
        ok = madd(id, S[o->src].d, S[o->src].n, o->flags, false) && mmeta(pu_id("merkle-salt"), id, z, 32) &&
             mmeta(pu_id("merkle-root-hash"), id, z, 32) && M.np < 32 && mfind(tid) < 0;
        if (use_tool) {
            char *av[12] = {"bpak", "add", ar, "--part", (char *)o->name, "--from-file", (char *)S[o->src].file, "--encoder", "merkle"};
            if (o->flags) { av[9] = "--set-flag"; av[10] = "dont-hash"; }
            rc = toolv("", av);
        } else rc = bpak_pkg_add_file_with_merkle_tree(&pkg, S[o->src].file, o->name, o->flags);
        if (!ok) M = *sv;
        else if (!rc) {
            struct bpak_header h;
            size_t n;
            if (open_now) fflush(pkg.fp);
            uint8_t *f = mc_read_file(ar, &n);
            memcpy(&h, f, 4096); free(f);
            /* the salt is the only free choice of the implementation */
            struct bpak_meta_header *sm = NULL;
            for (int i = 0; i < 32; i++) if (h.meta[i].id == pu_id("merkle-salt") && h.meta[i].part_id_ref == id) sm = &h.meta[i];
            MC_CHECK(sm && sm->size == 32 && sm->offset <= 1920 - 32, "no salt stored for %s", o->name);
            memcpy(M.m[M.nm - 2].v, h.metadata + sm->offset, 32);
            size_t tl;
            uint8_t *t = pu_merkle(S[o->src].d, S[o->src].n, M.m[M.nm - 2].v, 32, &tl, root);
            memcpy(M.m[M.nm - 1].v, root, 32);
            madd(tid, t, tl, o->flags, true);
        }
        free(sv);
        break; }
    case DEL: case DELK: {
        int i = mfind(id);
        ok = i >= 0;
        if (ok) { if (M.p[i].enc) {} mdel(i); if (o->k == DEL) mdelmeta(id, false); }
        rc = use_tool ? tool("", "delete", ar, "--part", o->name, o->k == DELK ? "--keep-meta" : NULL, NULL) : bpak_pkg_delete_part(&pkg, id, o->k == DEL);
        break; }
    case ALL: case ALLK:
        while (M.np) mdel(M.np - 1);
        if (o->k == ALL) mdelmeta(0, true);
        rc = use_tool ? tool("", "delete", ar, "--all", o->k == ALLK ? "--keep-meta" : NULL, NULL) : bpak_pkg_delete_all_parts(&pkg, o->k == ALL);
        break;
    case REOPEN:
        if (!use_tool) { bpak_pkg_close(&pkg); open_now = false; do_open(); }
        break;
    case META: {
        ok = mmeta(pu_id("note"), id, "hello", 6);
        if (use_tool) rc = tool("", "add", ar, "--meta", "note", "--part-ref", o->name, "--from-string", "hello", NULL);
        else {
            struct bpak_meta_header *m = NULL;
            rc = bpak_add_meta(&pkg.header, pu_id("note"), id, 6, &m);
            if (!rc) { memcpy(bpak_get_meta_ptr(&pkg.header, m, uint8_t), "hello", 6); rc = bpak_pkg_write_header(&pkg); }
        }
        break; }
    }
    if (chk) {
        mc_distinct(mc_hash(&rc, sizeof rc, o->k));
        MC_CHECK((rc == 0) == ok, "%s returned %d, expected %s", opname(o), rc, ok ? "success" : "an error");
        if (!ok) {
            size_t n;
            if (open_now) fflush(pkg.fp);
            uint8_t *f = mc_read_file(ar, &n);
            MC_CHECK(f && n == oldn && !memcmp(f, oldf, n), "refused %s changed the archive file", opname(o));
            free(f);
        }
        check();
    } else if ((rc == 0) != ok) mc_fail("%s returned %d in a longer history", opname(o), rc);
}

static struct pu init_img[8];
static struct model init_m[8];
#define NINIT 6
static const char *iname[NINIT] = {"empty", "30 parts", "31 parts, sha384", "encoded part between others", "metadata nearly full", "32 metadata slots but one"};
static void mk_inits(void)
{
    static uint8_t b[40000];
    static uint32_t ids[40];
    for (int v = 0; v < NINIT; v++) {
        mclear();
        memset(&M, 0, sizeof M);
        M.offs = true;
        M.base.magic = 0x42504132; M.base.alignment = 512;
        M.base.hash_kind = v == 2 ? 2 : v == 4 ? 3 : 1;
        M.base.signature_kind = 1;
        M.base.key_id = 0x1234 * v; M.base.keystore_id = v;
        if (v) { memset(M.base.signature, 0x77, 100); M.base.signature_sz = 100; }
        pu_fill(b, sizeof b, 5);
        if (v == 1 || v == 2)
            for (int i = 0; i < 29 + v; i++) { ids[i] = i == 3 ? pu_id("t") : i == 11 ? pu_id("b") : 0x100 + i; madd(ids[i], b + i * 7, i == 3 ? 700 : i * 13, i % 3 == 0, false); }
        if (v == 3) {
            M.offs = false;
            madd(pu_id("b"), b, 700, 0, false);
            madd(pu_id("t"), b + 1000, 5003, 0, false);
            M.p[1].enc = 1; M.p[1].size = 20000; M.p[1].pad = 480;
            madd(pu_id("a"), b + 9000, 4000, 1, false);
            madd(pu_id("u"), b + 19000, 333, 0, false);
            M.p[3].enc = 1; M.p[3].size = 100; M.p[3].pad = 412;
            uint8_t tm[32] = {1, 2, 3};
            mmeta(pu_id("bpak-transport"), pu_id("t"), tm, 32);
        }
        mmeta(pu_id("bpak-package"), 0, b + 50, 16);
        if (v == 4) mmeta(pu_id("big"), 0, b, 1920 - 16 - 40);
        if (v == 5) for (int i = 0; i < 30; i++) mmeta(0x9000 + i, i % 2 ? pu_id("a") : 0, b + i, 1 + i % 9);
        expected();
        pu_init(&init_img[v], 1);
        pu_copy(&init_img[v], &X);
        init_m[v] = M;
        M.np = 0;
    }
}
static void start(int v)
{
    if (open_now) { bpak_pkg_close(&pkg); open_now = false; }
    while (M.np) mdel(M.np - 1);
    M = init_m[v];
    unlink(ar);
    if (v == 0 && !use_tool) {
        /* a fresh archive made by the library itself */
        int rc = bpak_pkg_open(&pkg, ar, "wb+");
        MC_CHECK(rc == 0, "cannot create archive: %d", rc);
        open_now = true;
        M.nm = 0; M.base = (struct bpak_header){0};
        bpak_init_header(&M.base);
    } else if (v == 0) {
        int rc = tool("", "create", ar, "-Y", NULL);
        MC_CHECK(rc == 0, "create returned %d", rc);
        M.nm = 0; bpak_init_header(&M.base);
    } else {
        pu_save(&init_img[v], ar);
        if (!use_tool) do_open();
    }
}
static uint64_t canon(void)
{
    uint64_t h = M.base.hash_kind + (uint64_t)M.base.keystore_id * 77;
    for (int i = 0; i < M.np; i++) { h = mc_hash(&M.p[i].id, 4, h); h = mc_hash(&M.p[i].n, 8, h); h = mc_hash(&M.p[i].flags, 4, h); }
    for (int i = 0; i < M.nm; i++) h = mc_hash(&M.m[i], 10, h);
    return h;
}
static int op0; /* first operation of the alphabet */
static void histories(int v, int depth, int nops, bool full_extract)
{
    int seq[8] = {0};
    for (int len = 1; len <= depth; len++) {
        memset(seq, 0, sizeof seq);
        long total = 1;
        for (int i = 0; i < len; i++) total *= nops;
        for (long x = 0; x < total; x++) {
            if (!mc_mine()) continue;
            long y = x;
            for (int i = len - 1; i >= 0; i--) { seq[i] = op0 + y % nops; y /= nops; }
            /* a pure reopen in front of or twice in a row adds nothing */
            bool skip = false;
            for (int i = 0; i + 1 < len; i++) if (OPS[seq[i]].k == REOPEN && (i == 0 || OPS[seq[i + 1]].k == REOPEN)) skip = true;
            if (use_tool) for (int i = 0; i < len; i++) if (OPS[seq[i]].k == REOPEN) skip = true;
            if (skip) continue;
            mc_case("%s, initial archive: %s;", use_tool ? "tool" : "library", iname[v]);
            for (int i = 0; i < len; i++) mc_case_add(" %s", opname(&OPS[seq[i]]));
            start(v);
            for (int i = 0; i < len; i++) apply(&OPS[seq[i]], i == len - 1);
            mc_state(canon());
            if (full_extract || x % 16 == 0) { check_extract(); check(); }
        }
    }
}
int mc_run(void)
{
    add_src(F0, "f0", 0); add_src(F1, "f1", 1); add_src(F512, "f512", 512); add_src(F513, "f513", 513); add_src(F4096, "f4096", 4096);
    add_src(F5000, "f5000", 5000); add_src(F8192, "f8192", 8192); add_src(F9001, "f9001", 9001);
    add_src(FM4, "fm4", 4096); add_src(FM8, "fm8", 8192); add_src(FM516, "fm516", 129 * 4096);
    add_src(FL0, "fl0", 65535); add_src(FL1, "fl1", 65536); add_src(FL2, "fl2", 65537); add_src(FL3, "fl3", 131073); add_src(FL4, "fl4", 1100000); add_src(FLM, "flm", 17 * 4096);
    add_key(K_RSA, "rsa4096-a"); add_key(K_EC, "p256-a");
    strcpy(ar, mc_path("a.bpak"));
    mk_inits();
    for (int v = 0; v < NINIT; v++) histories(v, mc_thorough ? 4 : v == 0 ? 3 : 2, mc_thorough ? NALL : NQ, true);
    if (!mc_thorough) for (int v = 0; v < NINIT; v++) histories(v, 1, NALL, true);
    else histories(0, 4, NQ, false);
    op0 = NALL;
    histories(0, mc_thorough ? 4 : 3, mc_thorough ? NBIG - 1 : 8, true);
    histories(0, 2, NBIG, true);
    op0 = 0;
    use_tool = true;
    if (open_now) { bpak_pkg_close(&pkg); open_now = false; }
    for (int v = 0; v < NINIT; v++) histories(v, mc_thorough ? 3 : v == 0 ? 2 : 1, NQ, true);
    op0 = NALL;
    histories(0, mc_thorough ? 3 : 2, NBIG, true);
    if (!xvalid) return 1;
    return 0;
}
