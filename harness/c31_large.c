/* C31: sizes and offsets beyond 31 and 32 bits. Archives are sparse files: the big parts are holes
 * with marks at their ends and around the 2 and 4 GiB borders. The hash backend is a substitute
 * that takes runs of zeros in constant time (the reference computes it from run lengths), and
 * fwrite() of zeros into a hole leaves the hole. Everything else is the real code. */
#define _GNU_SOURCE
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/crypto.h>
#include <bpak/verify.h>
#include <bpak/merkle.h>
#include <bpak/bspatch.h>
#include <bpak/bsdiff.h>
#include <bpak/transport.h>
#include <bpak/id.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <inttypes.h>
#include <sys/stat.h>

#define G1 (1ull << 30)
#define G2 (1ull << 31)
#define G4 (1ull << 32)
/* ---- substitute hash: zeros cost nothing ---- */
struct fh { uint64_t a, b, run, n; };
static void f_mix(struct fh *s, uint64_t v)
{
    s->a = (s->a ^ v) * 0x9e3779b97f4a7c15ull; s->a ^= s->a >> 29;
    s->b = (s->b + v) * 0xc2b2ae3d27d4eb4full; s->b ^= s->b >> 31;
}
static void f_zero(struct fh *s, uint64_t n) { s->run += n; s->n += n; }
static void f_add(struct fh *s, const uint8_t *b, size_t n)
{
    if (n >= 16 && !b[0] && !memcmp(b, b + 1, n - 1)) { f_zero(s, n); return; }
    for (size_t i = 0; i < n; i++) {
        s->n++;
        if (!b[i]) { s->run++; continue; }
        if (s->run) { f_mix(s, s->run + 1000); s->run = 0; }
        f_mix(s, b[i]);
    }
}
static size_t f_len(int k) { return k == BPAK_HASH_SHA256 ? 32 : k == BPAK_HASH_SHA384 ? 48 : 64; }
static void f_end(struct fh *s, int kind, uint8_t *o)
{
    f_mix(s, s->run + 1000); f_mix(s, s->n); f_mix(s, kind);
    for (size_t i = 0; i < f_len(kind); i += 8) { f_mix(s, i); uint64_t v = s->a ^ (s->b << 1); memcpy(o + i, &v, 8); }
}
static int h_init(struct bpak_hash_context *c)
{
    if (c->kind < BPAK_HASH_SHA256 || c->kind > BPAK_HASH_SHA512) return -BPAK_UNSUPPORTED_HASH_ALG;
    memset(&c->backend, 0, sizeof c->backend);
    return 0;
}
static int h_update(struct bpak_hash_context *c, const uint8_t *b, size_t n) { f_add((struct fh *)&c->backend, b, n); return 0; }
static int h_final(struct bpak_hash_context *c, uint8_t *b, size_t n, size_t *r)
{
    if (n < f_len(c->kind)) return -BPAK_SIZE_ERROR;
    f_end((struct fh *)&c->backend, c->kind, b);
    if (r) *r = f_len(c->kind);
    return 0;
}
static void h_free(struct bpak_hash_context *c) { (void)c; }

/* ---- zeros written into a hole leave the hole ---- */
static bool sparse;
size_t fwrite(const void *p, size_t sz, size_t cnt, FILE *f)
{
    size_t n = sz * cnt;
    const uint8_t *b = p;
    if (!sparse || n < 512 || f == stdout || f == stderr || b[0] || memcmp(b, b + 1, n - 1)) return fwrite_unlocked(p, sz, cnt, f);
    struct stat st;
    off_t pos;
    if (fflush(f) || (pos = ftello(f)) < 0 || fstat(fileno(f), &st) || !S_ISREG(st.st_mode)) return fwrite_unlocked(p, sz, cnt, f);
    if (pos < st.st_size) {
        off_t d = lseek(fileno(f), pos, SEEK_DATA);
        bool hole = (d < 0 && errno == ENXIO) || d >= pos + (off_t)n;
        if (!hole) {
            fseeko(f, pos, SEEK_SET);
            return fwrite_unlocked(p, sz, cnt, f);
        }
    }
    if (pos + (off_t)n > st.st_size && ftruncate(fileno(f), pos + n)) return 0;
    if (fseeko(f, pos + n, SEEK_SET)) return 0;
    return cnt;
}

/* ---- the reference archive ---- */
enum { SMALL, BIG };
struct mp { char name[16]; uint32_t id; uint64_t size, tsize; int flags, kind; uint8_t *d; };
struct ar { struct mp p[8]; int n, nmeta, hk; uint64_t sum; };
static const char MARK[] = "marked contents";
#define ML 15
static uint64_t pad(uint64_t n) { return (512 - n % 512) % 512; }
static uint64_t stored(const struct mp *p) { return p->flags & BPAK_FLAG_TRANSPORT ? p->tsize : p->size + pad(p->size); }
/* positions of the marks of a big part, ascending */
static int marks(uint64_t size, uint64_t *m)
{
    int n = 0;
    m[n++] = 0;
    const uint64_t c[] = {G2 - 4096 - 3, G2 + 5, G4 - 4096 - 9, G4 - 7};
    for (int i = 0; i < 4; i++) if (c[i] + 64 < size) m[n++] = c[i];
    m[n++] = size - ML;
    return n;
}
static void content_hash(struct fh *s, const struct mp *p)
{
    if (p->kind == SMALL) f_add(s, p->d, p->flags & BPAK_FLAG_TRANSPORT ? p->tsize : p->size);
    else {
        uint64_t m[8], at = 0;
        int n = marks(p->size, m);
        for (int i = 0; i < n; i++) { f_zero(s, m[i] - at); f_add(s, (const uint8_t *)MARK, ML); at = m[i] + ML; }
        f_zero(s, p->size - at);
    }
    if (!(p->flags & BPAK_FLAG_TRANSPORT)) f_zero(s, pad(p->size));
}
static void payload_hash(const struct ar *a, uint8_t *o)
{
    struct fh s = {0};
    memset(o, 0, 64);
    for (int i = 0; i < a->n; i++) if (!(a->p[i].flags & BPAK_FLAG_EXCLUDE_FROM_HASH)) content_hash(&s, &a->p[i]);
    f_end(&s, a->hk, o);
}
static void big_file(const char *path, uint64_t size)
{
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    uint64_t m[8];
    int n = marks(size, m);
    if (fd < 0 || ftruncate(fd, size)) mc_die("cannot make a file of %" PRIu64 " bytes", size);
    for (int i = 0; i < n; i++) if (pwrite(fd, MARK, ML, m[i]) != ML) mc_die("pwrite");
    close(fd);
}
static struct mp mkpart(const char *name, int kind, uint64_t size, int flags, uint32_t seed)
{
    struct mp p = {{0}};
    snprintf(p.name, sizeof p.name, "%s", name);
    p.id = pu_id(name); p.kind = kind; p.size = size; p.flags = flags;
    if (kind == SMALL) { p.d = malloc(size + 1); pu_fill(p.d, size, seed); }
    return p;
}
static struct mp big(const char *name, uint64_t size, int flags) { return mkpart(name, BIG, size, flags, 0); }
static struct mp small(const char *name, uint64_t size, int flags, uint32_t seed) { return mkpart(name, SMALL, size, flags, seed); }
static void a_init(struct ar *a, int hk) { memset(a, 0, sizeof *a); a->hk = hk; }
static void a_add(struct ar *a, struct mp p) { a->p[a->n++] = p; }
static void a_del(struct ar *a, int i) { memmove(a->p + i, a->p + i + 1, (a->n - 1 - i) * sizeof *a->p); a->n--; }
static uint64_t a_len(const struct ar *a) { uint64_t l = 4096; for (int i = 0; i < a->n; i++) l += stored(&a->p[i]); return l; }
/* write the archive from the format description */
static void a_write(const struct ar *a, const char *path, bool identity)
{
    struct pu P = {0};
    pu_init(&P, a->hk);
    uint64_t off = 4096;
    if (identity) pu_uuid(&P, 1);
    int fd = open(path, O_CREAT | O_TRUNC | O_RDWR, 0644);
    if (fd < 0 || ftruncate(fd, a_len(a))) mc_die("cannot make the archive");
    for (int i = 0; i < a->n; i++) {
        const struct mp *p = &a->p[i];
        P.h.parts[i].id = p->id; P.h.parts[i].size = p->size; P.h.parts[i].pad_bytes = pad(p->size);
        P.h.parts[i].offset = off; P.h.parts[i].flags = p->flags;
        P.h.parts[i].transport_size = p->flags & BPAK_FLAG_TRANSPORT ? p->tsize : 0;
        uint64_t m[8];
        if (p->kind == SMALL) { size_t l = p->flags & BPAK_FLAG_TRANSPORT ? p->tsize : p->size; if (pwrite(fd, p->d, l, off) != (ssize_t)l) mc_die("pwrite"); }
        else for (int k = 0, n = marks(p->size, m); k < n; k++) if (pwrite(fd, MARK, ML, off + m[k]) != ML) mc_die("pwrite");
        off += stored(p);
    }
    payload_hash(a, P.h.payload_hash);
    if (pwrite(fd, &P.h, 4096, 0) != 4096) mc_die("pwrite");
    close(fd);
    pu_free(&P);
}
static void get(int fd, uint64_t off, void *b, size_t n, const char *what)
{
    ssize_t r = pread(fd, b, n, off);
    MC_CHECK(r == (ssize_t)n, "%s: the archive ends at %" PRIu64, what, off + (r > 0 ? r : 0));
}
/* the bytes of the range are zero but for the marks of a big part that starts there */
static void check_big(int fd, uint64_t off, uint64_t size, const char *what)
{
    uint64_t m[8], at = off;
    int n = marks(size, m);
    uint8_t b[4096];
    for (int i = 0; i < n; i++) {
        get(fd, off + m[i], b, ML, what);
        MC_CHECK(!memcmp(b, MARK, ML), "%s: the contents at offset %" PRIu64 " of the big part are gone", what, m[i]);
    }
    uint64_t end = off + size + pad(size);
    while (at < end) {
        off_t d = lseek(fd, at, SEEK_DATA);
        if (d < 0 || (uint64_t)d >= end) break;
        at = d;
        off_t h = lseek(fd, at, SEEK_HOLE);
        uint64_t stop = h < 0 || (uint64_t)h > end ? end : (uint64_t)h;
        for (; at < stop; at += sizeof b) {
            size_t l = stop - at < sizeof b ? stop - at : sizeof b;
            get(fd, at, b, l, what);
            for (int i = 0; i < n; i++)
                for (int k = 0; k < ML; k++) { uint64_t q = off + m[i] + k; if (q >= at && q < at + l) b[q - at] = 0; }
            if (b[0] || memcmp(b, b + 1, l - 1)) mc_fail("%s: foreign bytes within the big part near offset %" PRIu64, what, at - off);
        }
        at = stop;
    }
}
static void a_check(const struct ar *a, const char *path, const char *what)
{
    struct bpak_header h;
    struct stat st;
    int fd = open(path, O_RDONLY);
    MC_CHECK(fd >= 0, "%s: no archive", what);
    get(fd, 0, &h, 4096, what);
    fstat(fd, &st);
    mc_eval(1);
    MC_CHECK((uint64_t)st.st_size == a_len(a), "%s: the file has %" PRIu64 " bytes instead of %" PRIu64, what, (uint64_t)st.st_size, a_len(a));
    uint64_t off = 4096;
    for (int i = 0; i < 32; i++) {
        const struct bpak_part_header *q = &h.parts[i];
        static const struct bpak_part_header none;
        if (i >= a->n) { MC_CHECK(!memcmp(q, &none, sizeof none), "%s: slot %d is not empty", what, i); continue; }
        const struct mp *p = &a->p[i];
        MC_CHECK(q->id == p->id && q->size == p->size && q->pad_bytes == pad(p->size) && q->flags == p->flags && q->offset == off &&
                 q->transport_size == (p->flags & BPAK_FLAG_TRANSPORT ? p->tsize : 0),
                 "%s: part %s has size %" PRIu64 ", padding %d, flags %d, offset %" PRIu64 ", encoded size %" PRIu64 " instead of %" PRIu64 ", %d, %d, %" PRIu64, what,
                 p->name, q->size, q->pad_bytes, q->flags, q->offset, q->transport_size, p->size, (int)pad(p->size), p->flags, off);
        if (p->kind == BIG) check_big(fd, off, p->size, what);
        else {
            size_t n = stored(p), dl = p->flags & BPAK_FLAG_TRANSPORT ? p->tsize : p->size;
            uint8_t *b = malloc(n + 1);
            get(fd, off, b, n, what);
            MC_CHECK(!memcmp(b, p->d, dl), "%s: the data of part %s are wrong", what, p->name);
            for (size_t k = dl; k < n; k++) MC_CHECK(!b[k], "%s: the padding of part %s is not zero", what, p->name);
            free(b);
        }
        off += stored(p);
    }
    uint8_t w[64];
    payload_hash(a, w);
    MC_CHECK(!memcmp(w, h.payload_hash, 64), "%s: the payload hash is not that of the contents", what);
    close(fd);
}

/* ---- tool operations ---- */
static char FA[600], FS[600], FBIG[600], FO[600], FT[600], FD[600];
static const char *SGN = "p256-a.pem", *PUB = "p256-a.pub.pem";
static char kpri[600], kpub[600];
static int digits(const char *s, uint64_t v)
{
    char w[40];
    int c = 0;
    snprintf(w, sizeof w, "%" PRIu64, v);
    for (const char *q = s; (q = strstr(q, w)); q++) {
        char b = q == s ? ' ' : q[-1], e = q[strlen(w)];
        c += !(b >= '0' && b <= '9') && !(e >= '0' && e <= '9');
    }
    return c;
}
static void reads(const struct ar *a, const char *what)
{
    size_t n;
    char idt[20];
    int rc;
    for (int i = 0; i < a->n; i++) {
        const struct mp *p = &a->p[i];
        if (p->kind == BIG) continue;
        snprintf(idt, sizeof idt, "0x%x", p->id);
        rc = tool("", "extract", FA, "--part", idt, "--output", FO, NULL);
        uint8_t *g = mc_read_file(FO, &n);
        size_t want = p->flags & BPAK_FLAG_TRANSPORT ? p->tsize : p->size;
        MC_CHECK(rc == 0 && g && n == want && !memcmp(g, p->d, n), "%s: extracting part %s gives %zu bytes, exit %d", what, p->name, n, rc);
        free(g);
        mc_eval(1);
    }
    rc = tool(FO, "show", FA, "-v", NULL);
    char *t = (char *)mc_read_file(FO, &n);
    MC_CHECK(rc == 0 && t, "%s: show fails (%d)", what, rc);
    t[n] = 0;
    uint64_t inst = 0;
    for (int i = 0; i < a->n; i++) {
        char key[20];
        snprintf(key, sizeof key, "\n    %8.8x ", a->p[i].id);
        char *l = strstr(t, "\nParts:");
        l = l ? strstr(l, key) : NULL;
        MC_CHECK(l, "%s: part %s is not listed", what, a->p[i].name);
        char line[200] = {0};
        memcpy(line, l + 1, strcspn(l + 1, "\n") < 190 ? strcspn(l + 1, "\n") : 190);
        MC_CHECK(digits(line, a->p[i].size) >= 1 && digits(line, a->p[i].flags & BPAK_FLAG_TRANSPORT ? a->p[i].tsize : a->p[i].size) >= 1, "%s: the line '%s' does not give the size %" PRIu64, what, line, a->p[i].size);
        inst += a->p[i].size + pad(a->p[i].size);
    }
    char *l = strstr(t, "Transport size:");
    MC_CHECK(l && strtoull(l + 15, NULL, 10) == a_len(a), "%s: the transport size is not %" PRIu64 ": %.60s", what, a_len(a), l ? l : "");
    l = strstr(t, "Installed size:");
    MC_CHECK(l && strtoull(l + 15, NULL, 10) == inst, "%s: the installed size is not %" PRIu64 ": %.60s", what, inst, l ? l : "");
    free(t);
    static struct bpak_package k;
    if (bpak_pkg_open(&k, FA, "rb")) mc_fail("%s: the archive does not open", what);
    MC_CHECK(bpak_pkg_size(&k) == a_len(a) && bpak_pkg_installed_size(&k) == inst, "%s: reported sizes %zu and %zu", what, bpak_pkg_size(&k), bpak_pkg_installed_size(&k));
    bpak_pkg_close(&k);
}
static void verify(const char *path, bool good, const char *what)
{
    mc_eval(1);
    int rc = tool("", "verify", path, "--key", kpub, NULL);
    MC_CHECK((rc == 0) == good, "%s: verification gives exit status %d", what, rc);
}
static int find(const struct ar *a, const char *name) { for (int i = 0; i < a->n; i++) if (!strcmp(a->p[i].name, name)) return i; return -1; }
static uint8_t blk_block[4096];
/* reference tree over a part, substitute hash, from the format description */
static uint8_t *tree(const struct mp *p, const uint8_t *salt, size_t *tl, uint8_t *root)
{
    uint64_t nb = p->size / 4096, m[8];
    int nm = p->kind == BIG ? marks(p->size, m) : 0, L = 0;
    uint8_t *lv[8];
    size_t ln[8], len = (nb * 32 + 4095) & ~4095ull;
    struct fh z = {0};
    uint8_t zero[32];
    f_add(&z, salt, 32); f_zero(&z, 4096); f_end(&z, BPAK_HASH_SHA256, zero);
    lv[0] = calloc(1, len); ln[0] = len;
    for (uint64_t b = 0; b < nb; b++) {
        uint8_t *o = lv[0] + b * 32;
        bool marked = p->kind == SMALL;
        for (int i = 0; i < nm && !marked; i++) marked = m[i] < (b + 1) * 4096 && m[i] + ML > b * 4096;
        if (!marked) { memcpy(o, zero, 32); continue; }
        if (p->kind == SMALL) memcpy(blk_block, p->d + b * 4096, 4096);
        else {
            memset(blk_block, 0, 4096);
            for (int i = 0; i < nm; i++) for (int k = 0; k < ML; k++) { uint64_t q = m[i] + k; if (q / 4096 == b) blk_block[q % 4096] = MARK[k]; }
        }
        struct fh s = {0};
        f_add(&s, salt, 32); f_add(&s, blk_block, 4096); f_end(&s, BPAK_HASH_SHA256, o);
    }
    while (nb > 1 && ln[L] > 4096) {
        size_t k = ln[L] / 4096;
        len = (k * 32 + 4095) & ~4095ull;
        lv[L + 1] = calloc(1, len); ln[L + 1] = len;
        for (size_t b = 0; b < k; b++) { struct fh s = {0}; f_add(&s, salt, 32); f_add(&s, lv[L] + b * 4096, 4096); f_end(&s, BPAK_HASH_SHA256, lv[L + 1] + b * 32); }
        L++;
    }
    if (nb == 1) memcpy(root, lv[0], 32);
    else { struct fh s = {0}; f_add(&s, salt, 32); f_add(&s, lv[L], 4096); f_end(&s, BPAK_HASH_SHA256, root); }
    size_t tot = 0;
    for (int i = 0; i <= L; i++) tot += ln[i];
    uint8_t *t = malloc(tot), *q = t;
    for (int i = L; i >= 0; i--) { memcpy(q, lv[i], ln[i]); q += ln[i]; free(lv[i]); }
    *tl = tot;
    return t;
}
static void add_tree(struct ar *a, const char *path, const char *name, int flags, const char *what)
{
    struct bpak_header h;
    int fd = open(path, O_RDONLY);
    uint8_t salt[32] = {0}, root[32], have[32] = {0};
    get(fd, 0, &h, 4096, what);
    close(fd);
    for (int i = 0; i < 32; i++) {
        if (h.meta[i].part_id_ref != pu_id(name) || h.meta[i].size != 32) continue;
        if (h.meta[i].id == pu_id("merkle-salt")) memcpy(salt, h.metadata + h.meta[i].offset, 32);
        if (h.meta[i].id == pu_id("merkle-root-hash")) memcpy(have, h.metadata + h.meta[i].offset, 32);
    }
    struct mp t = {{0}};
    size_t tl;
    t.d = tree(&a->p[find(a, name)], salt, &tl, root);
    snprintf(t.name, sizeof t.name, "%s-tree", name);
    t.id = pu_tree_id(pu_id(name)); t.size = tl; t.kind = SMALL; t.flags = flags;
    a_add(a, t);
    MC_CHECK(!memcmp(have, root, 32), "%s: the root hash is not that of the contents", what);
}
enum { O_ADD, O_KEY, O_TREE, O_DBIG, O_DLAST, O_DALL, O_META, O_SIGN, O_BIGX, O_DFIRST, O_BIGH, O_BTREE, O_XBIG, NO };
static const char *on[] = {"add a file", "add a key", "add with a hash tree", "delete the big part", "delete the last part", "delete all", "set and add metadata", "sign and verify",
    "add a big file, not hashed", "delete the first part", "add a big file", "add a big file with a hash tree", "extract the big part"};
static uint64_t BS; /* size of a big file that is added */
/* false: not applicable */
static bool op(struct ar *a, int o, int k)
{
    char nm[16];
    int rc = 0, i;
    snprintf(nm, sizeof nm, "new%d", k);
    mc_trans(1);
    switch (o) {
    case O_ADD: {
        struct mp p = small(nm, 700 + 11 * k, 0, 40 + k);
        mc_write_file(FS, p.d, p.size);
        rc = tool("", "add", FA, "--part", nm, "--from-file", FS, NULL);
        a_add(a, p);
        break;
    }
    case O_KEY: {
        struct mp p = small(nm, 91, 0, 0);
        size_t n;
        char der[600];
        snprintf(der, sizeof der, "%s", pu_key("p256-b.pub.der"));
        free(p.d);
        p.d = mc_read_file(der, &n);
        p.size = n;
        rc = tool("", "add", FA, "--part", nm, "--from-file", der, "--encoder", "key", NULL);
        a_add(a, p);
        break;
    }
    case O_TREE: {
        struct mp p = small(nm, 135168, BPAK_FLAG_EXCLUDE_FROM_HASH, 50 + k); /* 33 blocks */
        mc_write_file(FS, p.d, p.size);
        rc = tool("", "add", FA, "--part", nm, "--from-file", FS, "--encoder", "merkle", "--set-flag", "dont-hash", NULL);
        a_add(a, p);
        if (!rc) add_tree(a, FA, nm, BPAK_FLAG_EXCLUDE_FROM_HASH, on[o]);
        break;
    }
    case O_DBIG:
        for (i = 0; i < a->n && a->p[i].kind != BIG; i++) ;
        if (i == a->n) return false;
        rc = tool("", "delete", FA, "--part", a->p[i].name, NULL);
        a_del(a, i);
        break;
    case O_DLAST:
    case O_DFIRST:
        if (!a->n) return false;
        i = o == O_DFIRST ? 0 : a->n - 1;
        snprintf(nm, sizeof nm, "0x%x", a->p[i].id);
        rc = tool("", "delete", FA, "--part", nm, NULL);
        a_del(a, i);
        break;
    case O_DALL:
        rc = tool("", "delete", FA, "--all", NULL);
        a->n = 0;
        break;
    case O_META:
        rc = tool("", "add", FA, "--meta", nm, "--from-string", "a value", NULL);
        if (!rc) rc = tool("", "set", FA, "--meta", nm, "--from-string", "a longer value", NULL);
        if (!rc) rc = tool("", "set", FA, "--key-id", "kid", NULL);
        break;
    case O_SIGN:
        rc = tool("", "sign", FA, "--key", kpri, NULL);
        if (!rc) verify(FA, true, on[o]);
        break;
    case O_BIGX:
    case O_BIGH:
    case O_BTREE: {
        int fl = o == O_BIGH ? 0 : BPAK_FLAG_EXCLUDE_FROM_HASH;
        big_file(FBIG, BS);
        a_add(a, big(nm, BS, fl));
        if (o == O_BIGX) rc = tool("", "add", FA, "--part", nm, "--from-file", FBIG, "--set-flag", "dont-hash", NULL);
        else if (o == O_BIGH) rc = tool("", "add", FA, "--part", nm, "--from-file", FBIG, NULL);
        else rc = tool("", "add", FA, "--part", nm, "--from-file", FBIG, "--encoder", "merkle", "--set-flag", "dont-hash", NULL);
        if (!rc && o == O_BTREE) add_tree(a, FA, nm, fl, on[o]);
        unlink(FBIG);
        break;
    }
    case O_XBIG: {
        for (i = 0; i < a->n && a->p[i].kind != BIG; i++) ;
        if (i == a->n) return false;
        rc = tool("", "extract", FA, "--part", a->p[i].name, "--output", FO, NULL);
        struct stat st;
        int fd = open(FO, O_RDONLY);
        MC_CHECK(rc == 0 && fd >= 0 && !fstat(fd, &st) && (uint64_t)st.st_size == a->p[i].size, "extracting the big part: exit %d, %" PRIu64 " bytes", rc, (uint64_t)st.st_size);
        uint8_t z[512];
        uint64_t m[8];
        for (int q = 0, n = marks(a->p[i].size, m); q < n; q++) { get(fd, m[q], z, ML, on[o]); MC_CHECK(!memcmp(z, MARK, ML), "the extracted bytes at offset %" PRIu64 " are wrong", m[q]); }
        close(fd);
        unlink(FO);
        break;
    }
    }
    MC_CHECK(rc == 0, "%s fails with exit status %d", on[o], rc);
    a_check(a, FA, on[o]);
    return true;
}
static const uint64_t SZ[] = {G2 - 4096, G2 - 512, G2, G2 + 1, G4 - 8192, G4 - 4096, G4 - 513, G4 - 512, G4 - 1, G4, G4 + 1, G4 + 512, 2 * G4 + 511, 5 * G4 + 4096, 1ull << 40, (1ull << 42) + 5};
#define NSZ ((int)(sizeof SZ / sizeof *SZ))
/* arrangement of the first archive */
#define NLAY 6
static void layout(struct ar *a, int l, uint64_t s, int hk)
{
    a_init(a, hk);
    int X = BPAK_FLAG_EXCLUDE_FROM_HASH;
    switch (l) {
    case 0: a_add(a, big("big", s, X)); break;
    case 1: a_add(a, big("big", s, X)); a_add(a, small("tail", 3000, 0, 1)); break;
    case 2: a_add(a, small("head", 5000, 0, 2)); a_add(a, big("big", s, X)); a_add(a, small("tail", 4096, 0, 3)); a_add(a, small("last", 1, 0, 4)); break;
    case 3: a_add(a, big("big", s / 2 / 512 * 512, X)); a_add(a, small("mid", 0, 0, 5)); a_add(a, big("big2", s - s / 2 / 512 * 512, X)); a_add(a, small("tail", 513, 0, 6)); break;
    case 4: { /* encoded parts: the stored size counts */
        struct mp p = small("big", 700, X, 7);
        p.flags |= BPAK_FLAG_TRANSPORT; p.tsize = 700; p.size = s;
        a_add(a, p); a_add(a, small("tail", 4097, 0, 8));
        break;
    }
    case 5: a_add(a, small("head", 100, 0, 9)); a_add(a, big("big", s, 0)); a_add(a, small("tail", 999, 0, 10)); break;
    }
}
static const int fast[] = {O_ADD, O_KEY, O_TREE, O_DBIG, O_DLAST, O_DALL, O_META, O_SIGN};
#define NF 8
static void histories(void)
{
    struct ar a;
    for (int l = 0; l < 5; l++)
        for (int s = 0; s < NSZ; s++)
            for (int i = 0; i < NF; i++) {
                if (!mc_mine()) continue;
                for (int j = -1; j < NF; j++) {
                    if (j >= 0 && !mc_thorough && (s + l + i + j) % 3) continue;
                    if (l == 3 && (mc_thorough ? SZ[s] > 3 * G4 : SZ[s] != G4 - 1 && SZ[s] != G4 + 512) && (fast[i] == O_DBIG || (j >= 0 && fast[j] == O_DBIG))) continue; /* moves the other big part */
                    layout(&a, l, SZ[s], 1 + (s + i) % 3);
                    mc_case("history layout=%d size=%" PRIu64 " %s%s%s", l, SZ[s], on[fast[i]], j >= 0 ? ", then " : "", j >= 0 ? on[fast[j]] : "");
                    a_write(&a, FA, false);
                    mc_state(mc_hash(&a, sizeof a, l));
                    if (!op(&a, fast[i], 0)) break;
                    if (j >= 0 && !op(&a, fast[j], 1)) continue;
                    reads(&a, "reading");
                }
            }
    /* the expensive ones */
    static const struct { int l, o[3]; uint64_t s, b; int thorough; } H[] = {
        {1, {O_BIGX, O_ADD, -1}, G2 + 1, G4 + 513, 0},
        {2, {O_DFIRST, O_SIGN, -1}, G4 + 512, 0, 0},
        {2, {O_DFIRST, -1}, 700, 0, 0},
        {5, {O_ADD, O_SIGN, -1}, G4 + 1, 0, 0},
        {5, {O_DFIRST, O_KEY, -1}, G4 - 512, 0, 0},
        {5, {O_DLAST, O_SIGN, -1}, G2 + 5 * 512, 0, 0},
        {0, {O_BIGH, O_SIGN, -1}, G2, G4 + 77, 0},
        {0, {O_BTREE, O_SIGN, -1}, 4096, G4 + 8192, 0},
        {1, {O_BTREE, O_ADD, -1}, G2, G2 + 4096, 0},
        {1, {O_XBIG, -1}, G4 + 1029, 0, 0},
        {3, {O_BIGX, O_SIGN, -1}, G4, G2 - 1, 0},
        {1, {O_BTREE, O_DLAST, O_SIGN}, G4, 2 * G4 + 4096, 1},
        {2, {O_DFIRST, O_DFIRST, O_ADD}, 3 * G4 + 1, 0, 1},
        {5, {O_XBIG, O_DFIRST, O_SIGN}, 3 * G4 + 511, 0, 1},
        {3, {O_DFIRST, O_DFIRST, O_TREE}, 3 * G4 + 511, 0, 1},
        {0, {O_BIGH, O_BIGX, O_SIGN}, G4, 2 * G4 + 1, 1},
        {5, {O_BTREE, O_BIGH, O_SIGN}, G2 + 1, G4 + 4096, 1},
    };
    for (size_t i = 0; i < sizeof H / sizeof *H; i++) {
        if (H[i].thorough && !mc_thorough) continue;
        if (!mc_mine()) continue;
        BS = H[i].b;
        layout(&a, H[i].l, H[i].s, 1 + i % 3);
        mc_case("history layout=%d size=%" PRIu64 " added=%" PRIu64, H[i].l, H[i].s, BS);
        mc_watchdog(400);
        a_write(&a, FA, false);
        mc_state(mc_hash(&a, sizeof a, 99));
        for (int k = 0; k < 3 && H[i].o[k] >= 0; k++) {
            mc_case_add(" %s,", on[H[i].o[k]]);
            op(&a, H[i].o[k], k);
        }
        reads(&a, "reading");
    }
    /* changes far behind in a hashed part and in a part with a hash tree */
    for (int t = 0; t < 2; t++)
        for (int w = 0; w < 6; w++) {
            if (!mc_mine()) continue;
            uint64_t s = t ? G4 + 8192 : G4 + 513;
            const uint64_t at[] = {100, G2 - 1, G2 + 4096, G4 - 1, G4, s - 1};
            mc_case("change at offset %" PRIu64 " of a part of %" PRIu64 " bytes %s", at[w], s, t ? "with a hash tree" : "that is hashed");
            mc_watchdog(400);
            a_init(&a, 1);
            a_add(&a, small("head", 600, 0, 3));
            a_write(&a, FA, false);
            BS = s;
            op(&a, t ? O_BTREE : O_BIGH, 0);
            if (tool("", "sign", FA, "--key", kpri, NULL)) mc_fail("signing fails");
            if (w == 0) verify(FA, true, "before the change");
            uint64_t off = 4096 + 1024 + at[w];
            int fd = open(FA, O_RDWR);
            uint8_t c;
            get(fd, off, &c, 1, "change");
            c ^= 0x20;
            if (pwrite(fd, &c, 1, off) != 1) mc_die("pwrite");
            close(fd);
            verify(FA, false, "after the change");
        }
    /* an archive whose end is missing, a field that needs 64 bits */
    for (int s = 0; s < NSZ; s++)
        for (int c = 0; c < 4; c++) {
            if (!mc_mine()) continue;
            static const uint64_t cut[] = {1, 512, G1, G2};
            layout(&a, 1, SZ[s], 1);
            if (cut[c] >= a_len(&a) - 4096) continue;
            a_write(&a, FA, false);
            mc_case("archive of %" PRIu64 " bytes lacking the last %" PRIu64, a_len(&a), cut[c]);
            if (truncate(FA, a_len(&a) - cut[c])) mc_die("truncate");
            uint8_t x[9] = "some data";
            mc_write_file(FS, x, 9);
            struct stat b, e;
            stat(FA, &b);
            int r1 = tool("", "add", FA, "--part", "more", "--from-file", FS, NULL);
            int r2 = tool("", "delete", FA, "--part", "big", NULL);
            int r3 = cut[c] > 512 ? tool("", "extract", FA, "--part", "tail", "--output", FO, NULL) : 1;
            stat(FA, &e);
            mc_eval(3);
            MC_CHECK(r1 && r2 && r3, "an operation on a truncated archive succeeds: add %d, delete %d, extract %d", r1, r2, r3);
            MC_CHECK(b.st_size == e.st_size, "a refused operation changed the length of the archive");
        }
}

/* ---- transport coding with an origin whose parts lie far behind ---- */
static void transports(void)
{
    static const char *enc[] = {"bsdiff", "bsdiff-no-comp", "bsdiff-lzma"}, *dec[] = {"bspatch", "bspatch-no-comp", "bspatch-lzma"};
    struct ar o, t;
    for (int s = 0; s < NSZ; s++)
        for (int e = 0; e < 3; e++)
            for (int both = 0; both < 2; both++) {
                if (SZ[s] > 1ull << 41 && !mc_thorough) continue; /* mapping it takes page tables */
                if (both && !(SZ[s] == G4 + 512 && e == 0) && !(mc_thorough && SZ[s] < 3 * G4)) continue;
                if (!mc_mine()) continue;
                mc_case("transport size=%" PRIu64 " %s%s", SZ[s], enc[e], both ? " with the big part in both" : "");
                mc_watchdog(400);
                a_init(&o, 1); a_init(&t, 1);
                a_add(&o, big("big", SZ[s], BPAK_FLAG_EXCLUDE_FROM_HASH));
                a_add(&o, small("part", 5000, 0, 11));
                if (both) a_add(&t, big("big", SZ[s], BPAK_FLAG_EXCLUDE_FROM_HASH));
                a_add(&t, small("part", 5600, 0, 11));
                t.p[t.n - 1].d[17] ^= 9; t.p[t.n - 1].d[4000] ^= 1;
                a_write(&o, FA, true);
                a_write(&t, FT, true);
                int rc = tool("", "transport", FT, "--add", "--part-ref", "part", "--encoder", enc[e], "--decoder", dec[e], NULL);
                if (!rc) rc = tool("", "sign", FT, "--key", kpri, NULL);
                MC_CHECK(rc == 0, "preparing the update fails (%d)", rc);
                rc = tool("", "transport", FT, "--encode", "--origin", FA, "--output", FD, NULL);
                MC_CHECK(rc == 0, "encoding fails (%d)", rc);
                rc = tool("", "transport", FD, "--decode", "--origin", FA, "--output", FO, NULL);
                MC_CHECK(rc == 0, "decoding fails (%d)", rc);
                a_check(&t, FO, "decoded package");
                verify(FO, true, "decoded package");
                a_check(&o, FA, "origin");
                mc_state(mc_hash(&t, sizeof t, s * 7 + e));
                unlink(FD); unlink(FO); unlink(FT);
            }
}

/* ---- callbacks on a sparse store: large offsets everywhere ---- */
struct pg { uint64_t no; uint8_t b[4096]; };
struct store { struct pg *p; int n, cap; int last, *ix, ixn; uint64_t end; };
static int *slot(struct store *s, uint64_t no)
{
    uint64_t h = no * 0x9e3779b97f4a7c15ull >> 20;
    while (s->ix[h & (s->ixn - 1)] && s->p[s->ix[h & (s->ixn - 1)] - 1].no != no) h++;
    return &s->ix[h & (s->ixn - 1)];
}
static struct pg *page(struct store *s, uint64_t no, bool make)
{
    if (s->last < s->n && s->p[s->last].no == no) return &s->p[s->last];
    if (s->n * 2 >= s->ixn) {
        free(s->ix);
        s->ixn = s->ixn ? 2 * s->ixn : 256;
        s->ix = calloc(s->ixn, sizeof *s->ix);
        if (!s->ix) mc_die("memory");
        for (int i = 0; i < s->n; i++) *slot(s, s->p[i].no) = i + 1;
    }
    int *x = slot(s, no);
    if (*x) { s->last = *x - 1; return &s->p[s->last]; }
    if (!make) return NULL;
    if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 64; s->p = realloc(s->p, s->cap * sizeof *s->p); if (!s->p) mc_die("memory"); }
    memset(&s->p[s->n], 0, sizeof *s->p);
    s->p[s->n].no = no;
    s->last = s->n;
    *x = s->n + 1;
    return &s->p[s->n++];
}
static void s_put(struct store *s, uint64_t o, const void *b, size_t n)
{
    const uint8_t *q = b;
    if (o + n > s->end) s->end = o + n;
    while (n) {
        size_t at = o % 4096, l = 4096 - at < n ? 4096 - at : n;
        bool z = !q[0] && (l == 1 || !memcmp(q, q + 1, l - 1));
        struct pg *p = page(s, o / 4096, !z);
        if (p) memcpy(p->b + at, q, l);
        q += l; o += l; n -= l;
    }
}
static void s_get(struct store *s, uint64_t o, void *b, size_t n)
{
    uint8_t *q = b;
    while (n) {
        size_t at = o % 4096, l = 4096 - at < n ? 4096 - at : n;
        struct pg *p = page(s, o / 4096, false);
        if (p) memcpy(q, p->b + at, l); else memset(q, 0, l);
        q += l; o += l; n -= l;
    }
}
static void s_clear(struct store *s) { s->n = s->last = 0; s->end = 0; if (s->ix) memset(s->ix, 0, s->ixn * sizeof *s->ix); }
static struct store ORG, OUT;
static uint64_t lo, hi; /* the only range that may be written */
static ssize_t cb_ro(off_t o, uint8_t *b, size_t n, void *u) { (void)u; if (o < 0) mc_fail("origin read at %ld", (long)o); s_get(&ORG, o, b, n); return n; }
static ssize_t cb_rd(off_t o, uint8_t *b, size_t n, void *u) { (void)u; if (o < 0) mc_fail("read at %ld", (long)o); s_get(&OUT, o, b, n); return n; }
static ssize_t cb_wr(off_t o, uint8_t *b, size_t n, void *u)
{
    (void)u;
    if (n && ((uint64_t)o < lo || o + n > hi)) mc_fail("write of %zu bytes at %" PRIu64 " outside of %" PRIu64 "..%" PRIu64, n, (uint64_t)o, lo, hi);
    s_put(&OUT, o, b, n);
    return n;
}
static struct bpak_header WH;
static ssize_t cb_hdr(off_t o, uint8_t *b, size_t n, void *u) { (void)u; (void)o; if (n != 4096) mc_fail("header of %zu bytes", n); memcpy(&WH, b, n); return n; }
static void put64(uint8_t *p, int64_t v) { uint64_t a = v < 0 ? -(uint64_t)v : (uint64_t)v; for (int i = 0; i < 8; i++) p[i] = a >> 8 * i; if (v < 0) p[7] |= 0x80; }
static const uint64_t BASE[] = {0, 4096, G2 - 100, G2, G4 - 4096, G4 - 1, G4, G4 + 4097, 1ull << 40, 1ull << 61};
#define NB 10
static void deltas(void)
{
    static uint8_t st[70000], want[40000], work[4096];
    /* origin positions: block 1 copies 300 bytes at `a`, block 2 300 bytes at `b`, block 3 goes back to 0 */
    for (int ob = 0; ob < NB; ob++)
        for (int wb = 0; wb < NB; wb++)
            for (int a = 0; a < NB; a++) {
                if (!mc_mine()) continue;
                for (int b = 0; b < NB; b++) {
                    if (BASE[ob] + BASE[a] >> 62 || BASE[ob] + BASE[b] >> 62) continue;
                    mc_case("delta jumping to %" PRIu64 " and %" PRIu64 ", origin at %" PRIu64 ", output at %" PRIu64, BASE[a], BASE[b], BASE[ob], BASE[wb]);
                    s_clear(&ORG); s_clear(&OUT);
                    uint8_t buf[300], *q = st;
                    const uint64_t pos[3] = {BASE[a], BASE[b], 0};
                    for (int i = 0; i < 3; i++) { pu_fill(buf, 300, 100 + i); s_put(&ORG, BASE[ob] + pos[i], buf, 300); }
                    put64(q, 0); put64(q + 8, 0); put64(q + 16, pos[0]); q += 24;
                    for (int i = 0; i < 3; i++) {
                        s_get(&ORG, BASE[ob] + pos[i], want + 310 * i, 300);
                        put64(q, 300); put64(q + 8, 10); put64(q + 16, i < 2 ? (int64_t)(pos[i + 1] - pos[i] - 300) : -300); q += 24;
                        for (int k = 0; k < 300; k++) { q[k] = k * 7 + i; want[310 * i + k] += q[k]; }
                        q += 300;
                        memset(q, 0x41 + i, 10); memset(want + 310 * i + 300, 0x41 + i, 10);
                        q += 10;
                    }
                    lo = BASE[wb]; hi = lo + 930;
                    struct bpak_bspatch_context c;
                    int rc = bpak_bspatch_init(&c, work, sizeof work, q - st, cb_ro, BASE[ob], cb_wr, BASE[wb], BPAK_COMPRESSION_NONE, NULL);
                    for (uint8_t *p = st; !rc && p < q; p += 97) rc = bpak_bspatch_write(&c, p, q - p < 97 ? q - p : 97);
                    ssize_t n = rc ? rc : bpak_bspatch_final(&c);
                    bpak_bspatch_free(&c);
                    mc_eval(1); mc_trans(1);
                    uint8_t got[930];
                    s_get(&OUT, lo, got, 930);
                    MC_CHECK(n == 930 && !memcmp(got, want, 930), "the result is wrong (%zd)", n);
                    mc_distinct(mc_hash(got, 930, 0));
                }
            }
    /* more than 4 GiB of output */
    for (int k = 0; k < 4; k++) {
        if (!mc_mine()) continue;
        static uint8_t chunk[1 << 16];
        uint64_t nd = k == 0 ? G4 + 4096 : k == 1 ? G2 - 300 : k == 3 ? 100 : 0, ne = k == 2 ? G4 + 4096 : k == 3 ? G2 + 5000 : 77;
        mc_case("delta of one block with %" PRIu64 " diff and %" PRIu64 " extra bytes", nd, ne);
        mc_watchdog(300);
        s_clear(&ORG); s_clear(&OUT);
        s_put(&ORG, nd > 20 ? nd - 20 : 0, "origin before last..", 20);
        lo = 12345; hi = lo + nd + ne + 16;
        static uint8_t wk[1 << 17];
        struct bpak_bspatch_context c;
        uint8_t ctl[24];
        put64(ctl, nd); put64(ctl + 8, ne); put64(ctl + 16, 0);
        int rc = bpak_bspatch_init(&c, wk, sizeof wk, 24 + nd + ne + 40, cb_ro, 0, cb_wr, lo, BPAK_COMPRESSION_NONE, NULL);
        if (!rc) rc = bpak_bspatch_write(&c, ctl, 24);
        memset(chunk, 0, sizeof chunk);
        for (uint64_t left = nd + ne; !rc && left;) { size_t l = left < sizeof chunk ? left : sizeof chunk; rc = bpak_bspatch_write(&c, chunk, l); left -= l; }
        put64(ctl, 0); put64(ctl + 8, 16);
        if (!rc) rc = bpak_bspatch_write(&c, ctl, 24);
        uint8_t tail[16] = "the last sixteen";
        if (!rc) rc = bpak_bspatch_write(&c, tail, 16);
        ssize_t n = rc ? rc : bpak_bspatch_final(&c);
        bpak_bspatch_free(&c);
        mc_eval(1);
        uint8_t g[20];
        MC_CHECK(n == (ssize_t)(nd + ne + 16), "the output has %zd bytes instead of %" PRIu64, n, nd + ne + 16);
        s_get(&OUT, lo + nd + ne, g, 16);
        MC_CHECK(!memcmp(g, tail, 16), "the last block is not at its place");
        if (nd > 20) { s_get(&OUT, lo + nd - 20, g, 20); MC_CHECK(!memcmp(g, "origin before last..", 20), "the diff of the first block is not at its place"); }
    }
}
/* package level decoding through callbacks */
static void decoding(void)
{
    static uint8_t st[2000], work[4096], data[3000];
    for (int ob = 0; ob < NB; ob++)
        for (int wb = 0; wb < NB; wb++) {
            if (!mc_mine()) continue;
            for (int s = 0; s < NSZ; s++) {
                /* origin: big, part; patch: an unencoded part, then part */
                struct pu O = {0}, T = {0};
                if (BASE[ob] + SZ[s] >> 62) continue;
                mc_case("decoder: origin at %" PRIu64 " with a part of %" PRIu64 " first, output at %" PRIu64, BASE[ob], SZ[s], BASE[wb]);
                pu_init(&O, 1); pu_init(&T, 1);
                pu_uuid(&O, 1); pu_uuid(&T, 1);
                uint64_t ps = SZ[s] + pad(SZ[s]);
                O.h.parts[0] = (struct bpak_part_header){.id = pu_id("big"), .size = SZ[s], .pad_bytes = pad(SZ[s]), .offset = 4096};
                O.h.parts[1] = (struct bpak_part_header){.id = pu_id("part"), .size = 1024, .offset = 4096 + ps};
                pu_fill(data, 1024, 5);
                s_clear(&ORG); s_clear(&OUT);
                s_put(&ORG, BASE[ob] + ps, data, 1024);
                uint8_t *q = st;
                put64(q, 1024); put64(q + 8, 512); put64(q + 16, 0);
                memset(q + 24, 1, 1024); memset(q + 24 + 1024, 'x', 512);
                size_t l = 24 + 1536;
                T.h.parts[0] = (struct bpak_part_header){.id = pu_id("plain"), .size = 700, .pad_bytes = 324, .offset = 4096};
                T.h.parts[1] = (struct bpak_part_header){.id = pu_id("part"), .size = 1536, .offset = 5120, .flags = BPAK_FLAG_TRANSPORT, .transport_size = l};
                pu_transport(&T, pu_id("part"), "bsdiff-no-comp", "bspatch-no-comp");
                lo = BASE[wb]; hi = lo + 1024 + 1536;
                struct bpak_transport_decode c;
                struct bpak_header h = T.h;
                uint8_t plain[1024];
                pu_fill(plain, 1024, 9);
                int rc = bpak_transport_decode_init(&c, work, sizeof work, &h, cb_wr, cb_rd, BASE[wb], cb_hdr, NULL);
                if (!rc) rc = bpak_transport_decode_set_origin(&c, &O.h, cb_ro, BASE[ob]);
                if (!rc) rc = bpak_transport_decode_start(&c, &h.parts[0]);
                if (!rc) rc = bpak_transport_decode_write_chunk(&c, plain, 600);
                if (!rc) rc = bpak_transport_decode_write_chunk(&c, plain + 600, 424);
                if (!rc) rc = bpak_transport_decode_finish(&c);
                if (!rc) rc = bpak_transport_decode_start(&c, &h.parts[1]);
                for (size_t i = 0; !rc && i < l; i += 500) rc = bpak_transport_decode_write_chunk(&c, st + i, l - i < 500 ? l - i : 500);
                if (!rc) rc = bpak_transport_decode_finish(&c);
                bpak_transport_decode_free(&c);
                mc_eval(1); mc_trans(1);
                uint8_t g[2560];
                s_get(&OUT, lo, g, 2560);
                bool ok = !memcmp(g, plain, 1024);
                for (int i = 0; i < 1024; i++) ok = ok && g[1024 + i] == (uint8_t)(data[i] + 1);
                for (int i = 0; i < 512; i++) ok = ok && g[2048 + i] == 'x';
                MC_CHECK(rc == 0 && ok, "decoding gives %d%s", rc, ok ? "" : " and wrong data");
                pu_free(&O); pu_free(&T);
            }
        }
}
/* a hash tree that is generated while decoding: the parts are in the output already */
static void gen_tree(uint64_t base, const struct mp *before, const struct mp *fs, const char *what)
{
    static uint8_t work[4096], salt[32] = {7, 1, 9};
    struct pu T = {0};
    uint8_t root[32], *t;
    size_t tl;
    uint64_t at = base, m[8];
    pu_init(&T, 1);
    pu_uuid(&T, 1);
    s_clear(&OUT);
    int n = 0;
    if (before) { T.h.parts[n++] = (struct bpak_part_header){.id = before->id, .size = before->size, .pad_bytes = pad(before->size), .offset = 4096}; at += before->size + pad(before->size); }
    uint64_t fat = at;
    if (fs->kind == SMALL) s_put(&OUT, fat, fs->d, fs->size);
    else for (int i = 0, nm = marks(fs->size, m); i < nm; i++) s_put(&OUT, fat + m[i], MARK, ML);
    T.h.parts[n++] = (struct bpak_part_header){.id = fs->id, .size = fs->size, .offset = 4096 + fat - base};
    at += fs->size;
    t = tree(fs, salt, &tl, root);
    pu_meta(&T, pu_id("merkle-salt"), fs->id, salt, 32);
    pu_meta(&T, pu_id("merkle-root-hash"), fs->id, root, 32);
    T.h.parts[n] = (struct bpak_part_header){.id = pu_tree_id(fs->id), .size = tl, .offset = 4096 + at - base, .flags = 3};
    pu_transport(&T, pu_tree_id(fs->id), "remove-data", "merkle-generate");
    lo = at; hi = at + tl;
    struct bpak_transport_decode c;
    int rc = bpak_transport_decode_init(&c, work, sizeof work, &T.h, cb_wr, cb_rd, base, cb_hdr, NULL);
    if (!rc) rc = bpak_transport_decode_start(&c, &T.h.parts[n]);
    if (!rc) rc = bpak_transport_decode_finish(&c);
    bpak_transport_decode_free(&c);
    mc_eval(1); mc_trans(1);
    MC_CHECK(rc == 0, "%s: generating the hash tree gives %d", what, rc);
    uint8_t *g = malloc(tl);
    s_get(&OUT, at, g, tl);
    MC_CHECK(!memcmp(g, t, tl), "%s: the generated hash tree is not that of the contents", what);
    s_get(&OUT, fat, blk_block, ML);
    MC_CHECK(!memcmp(blk_block, fs->kind == SMALL ? (const char *)fs->d : MARK, ML), "%s: the contents changed", what);
    MC_CHECK(!(WH.parts[n].flags & 2) && WH.parts[n].size == tl && !WH.parts[n].transport_size, "%s: the header still lists the tree as removed", what);
    mc_distinct(mc_hash(g, tl, 0));
    free(g); free(t);
    pu_free(&T);
}
static void trees(void)
{
    for (int wb = 0; wb < NB; wb++) {
        for (int s = 0; s < NSZ; s++) {
            if (!mc_mine()) continue;
            mc_case("generated hash tree behind a part of %" PRIu64 " bytes, output at %" PRIu64, SZ[s], BASE[wb]);
            struct mp b = big("big", SZ[s], 0), f = small("fs", 8192, 1, 3);
            gen_tree(BASE[wb], &b, &f, "tree");
            free(f.d);
        }
        for (int s = 0; s < NSZ; s++) {
            if (SZ[s] % 4096 || SZ[s] > 6 * G4 || (!mc_thorough && wb % 3)) continue;
            if (!mc_mine()) continue;
            mc_case("generated hash tree of a part of %" PRIu64 " bytes, output at %" PRIu64, SZ[s], BASE[wb]);
            mc_watchdog(300);
            struct mp f = big("fs", SZ[s], 1);
            gen_tree(BASE[wb], NULL, &f, "tree");
        }
    }
}
/* the beginning of a delta whose stored size is beyond the limits is decoded like that of any other */
static void prefixes(void)
{
    static uint8_t raw[8000], st[9100], work[4096], data[8000], g[8000];
    for (int s = 0; s < NSZ; s++)
        for (int x = 0; x < 3; x++)
            for (int k = 0; k < 3; k++) {
                if (!mc_mine()) continue;
                struct pu O = {0}, T = {0};
                uint64_t tsz = SZ[s] + (x == 0 ? 0 : x == 1 ? 300 : 1), nd = SZ[s];
                const size_t step = k == 0 ? 1 : k == 1 ? 100 : 4096;
                mc_case("first bytes of a compressed delta of %" PRIu64 " bytes in pieces of %zu", tsz, step);
                pu_init(&O, 1); pu_init(&T, 1);
                pu_uuid(&O, 1); pu_uuid(&T, 1);
                O.h.parts[0] = (struct bpak_part_header){.id = pu_id("part"), .size = nd, .pad_bytes = pad(nd), .offset = 4096};
                T.h.parts[0] = (struct bpak_part_header){.id = pu_id("part"), .size = nd, .pad_bytes = pad(nd), .offset = 4096, .flags = 2, .transport_size = tsz};
                pu_transport(&T, pu_id("part"), "bsdiff", "bspatch");
                s_clear(&ORG); s_clear(&OUT);
                pu_fill(data, 8000, 21);
                s_put(&ORG, 0, data, 8000);
                put64(raw, nd); put64(raw + 8, 0); put64(raw + 16, 0);
                for (int i = 24; i < 8000; i++) raw[i] = i * 5;
                /* heatshrink: literals only */
                size_t bits = 0;
                memset(st, 0, sizeof st);
                for (int i = 0; i < 8000; i++) {
                    st[bits / 8] |= 0x80 >> bits % 8; bits++;
                    for (int b = 7; b >= 0; b--, bits++) if (raw[i] >> b & 1) st[bits / 8] |= 0x80 >> bits % 8;
                }
                lo = 0; hi = 7976;
                struct bpak_transport_decode c;
                int rc = bpak_transport_decode_init(&c, work, sizeof work, &T.h, cb_wr, cb_rd, 0, cb_hdr, NULL);
                if (!rc) rc = bpak_transport_decode_set_origin(&c, &O.h, cb_ro, 0);
                if (!rc) rc = bpak_transport_decode_start(&c, &T.h.parts[0]);
                size_t l = bits / 8, i = 0;
                for (; !rc && i < l; i += step) rc = bpak_transport_decode_write_chunk(&c, st + i, l - i < step ? l - i : step);
                mc_eval(1); mc_trans(1);
                MC_CHECK(rc == 0, "the decoder gives %d after %zu bytes", rc, i);
                /* whatever the decoder keeps back is at most its buffer */
                s_get(&OUT, 0, g, 5000);
                for (int q = 0; q < 3500; q++) MC_CHECK(g[q] == (uint8_t)(data[q] + raw[24 + q]), "byte %d of the result is wrong", q);
                MC_CHECK(bpak_transport_decode_finish(&c) != 0, "an incomplete delta is accepted");
                bpak_transport_decode_free(&c);
                pu_free(&O); pu_free(&T);
            }
}
/* payload hash and verification through callbacks, data at an offset */
static uint64_t pbase; static const struct ar *pa;
static ssize_t cb_pay(off_t o, uint8_t *b, size_t n, void *u)
{
    (void)u;
    uint64_t at = pbase, x = o;
    if (x < pbase) mc_fail("read at %" PRIu64 " before the payload", x);
    for (int i = 0; i < pa->n; i++) {
        const struct mp *p = &pa->p[i];
        uint64_t l = stored(p);
        if (x < at + l || (n == 0 && x == at + l)) {
            if (x + n > at + l) mc_fail("read of %zu bytes at %" PRIu64 " beyond part %s", n, x, p->name);
            memset(b, 0, n);
            if (p->kind == SMALL) { for (size_t k = 0; k < n; k++) if (x + k - at < p->size) b[k] = p->d[x + k - at]; }
            else {
                uint64_t m[8];
                for (int q = 0, nm = marks(p->size, m); q < nm; q++)
                    if (m[q] + at < x + n && m[q] + ML + at > x) for (int k = 0; k < ML; k++) { uint64_t y = at + m[q] + k; if (y >= x && y < x + n) b[y - x] = MARK[k]; }
            }
            return n;
        }
        at += l;
    }
    mc_fail("read at %" PRIu64 " beyond the payload", x);
    return -1;
}
static void payloads(void)
{
    static uint8_t salt[32] = {1, 2, 3};
    for (int t = 0; t < 2; t++)
        for (int s = 0; s < NSZ; s++)
            for (int b = 0; b < NB - 1; b++) {
                if (SZ[s] > 6 * G4) continue;
                if (SZ[s] % 4096 && t) continue;
                /* reading all of it takes a while */
                if (!mc_thorough && !(SZ[s] == G4 && (t ? b == 0 : b == 7)) && !(SZ[s] == G4 + 1 && b == 0)) continue;
                if (mc_thorough && (b + s) % 3) continue;
                if (!mc_mine()) continue;
                struct ar a;
                struct pu P = {0};
                a_init(&a, 1);
                a_add(&a, small("head", 600, 0, 1));
                a_add(&a, big("big", SZ[s], t ? 1 : 0));
                a_add(&a, small("tail", 600, 0, 2));
                mc_case("payload of %" PRIu64 " bytes at %" PRIu64 "%s", a_len(&a) - 4096, BASE[b], t ? " with a hash tree" : "");
                mc_watchdog(600);
                pu_init(&P, 1);
                if (t) {
                    size_t tl;
                    uint8_t root[32];
                    struct mp x = {.kind = SMALL, .flags = 1};
                    x.d = tree(&a.p[1], salt, &tl, root);
                    x.id = pu_tree_id(pu_id("big")); x.size = tl;
                    a_add(&a, x);
                    pu_meta(&P, pu_id("merkle-salt"), pu_id("big"), salt, 32);
                    pu_meta(&P, pu_id("merkle-root-hash"), pu_id("big"), root, 32);
                }
                for (int i = 0; i < a.n; i++) P.h.parts[i] = (struct bpak_part_header){.id = a.p[i].id, .size = a.p[i].size, .pad_bytes = pad(a.p[i].size), .flags = a.p[i].flags};
                payload_hash(&a, P.h.payload_hash);
                pa = &a; pbase = BASE[b];
                int rc = bpak_verify_payload(&P.h, cb_pay, BASE[b], NULL);
                mc_eval(1); mc_trans(1);
                MC_CHECK(rc == 0, "verification of the payload gives %d", rc);
                for (int i = 0; i < a.n; i++) free(a.p[i].d);
                pu_free(&P);
            }
    /* offsets of the parts */
    for (int l = 0; l < NLAY; l++)
        for (int s = 0; s < NSZ; s++) {
            if (!mc_mine()) continue;
            struct ar a;
            layout(&a, l, SZ[s], 1);
            mc_case("offsets layout=%d size=%" PRIu64, l, SZ[s]);
            struct bpak_header h = {0};
            for (int i = 0; i < a.n; i++) h.parts[i] = (struct bpak_part_header){.id = a.p[i].id, .size = a.p[i].size, .pad_bytes = pad(a.p[i].size), .flags = a.p[i].flags, .transport_size = a.p[i].flags & 2 ? a.p[i].tsize : 0};
            uint64_t at = 4096;
            for (int i = 0; i < a.n; i++) {
                mc_eval(1);
                MC_CHECK((uint64_t)bpak_part_offset(&h, &h.parts[i]) == at && bpak_part_size(&h.parts[i]) == stored(&a.p[i]), "part %d: offset %" PRIu64 ", size %zu", i, (uint64_t)bpak_part_offset(&h, &h.parts[i]), bpak_part_size(&h.parts[i]));
                at += stored(&a.p[i]);
            }
        }
    /* size of the tree: sum over the levels */
    for (uint64_t base = 1; base < 1ull << 29; base <<= 1)
        for (int d = -3; d <= 3; d++) {
            if (!mc_mine() || base + d < 1 || base + d > 1ull << 60) continue;
            uint64_t nb = base + d, n = nb, tot = 0;
            int lv = 0;
            do { n = (n * 32 + 4095) / 4096; tot += n * 4096; lv++; } while (n > 1);
            mc_case("tree size for %" PRIu64 " blocks", nb);
            ssize_t r = bpak_merkle_compute_size(nb * 4096);
            mc_eval(1);
            MC_CHECK(lv > BPAK_MERKLE_MAX_LEVELS ? r < 0 : r == (ssize_t)tot, "tree size %zd instead of %" PRIu64, r, tot);
        }
}
int mc_run(void)
{
    if (sizeof(struct fh) > sizeof(((struct bpak_hash_context *)0)->backend)) mc_die("context too small");
    bpak_hash_setup(h_init, h_update, h_final, h_free);
    pu_inproc = true;
    sparse = true;
    snprintf(kpri, sizeof kpri, "%s", pu_key(SGN));
    snprintf(kpub, sizeof kpub, "%s", pu_key(PUB));
    snprintf(FA, 600, "%s/a.bpak", mc_scratch); snprintf(FS, 600, "%s/s.bin", mc_scratch); snprintf(FBIG, 600, "%s/big.bin", mc_scratch);
    snprintf(FO, 600, "%s/o.bin", mc_scratch); snprintf(FT, 600, "%s/t.bpak", mc_scratch); snprintf(FD, 600, "%s/d.bpak", mc_scratch);
    deltas();
    decoding();
    trees();
    prefixes();
    payloads();
    transports();
    histories();
    mc_sample("histories over layouts of big and small parts, sizes 2^31-4096 .. 2^42+5");
    return 0;
}
