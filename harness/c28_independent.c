/* C28: operations on separate objects do not interfere, whatever the interleaving.
 *
 * Two operations run as two threads under a controlled scheduler: exactly one runs at a time and
 * control passes at chosen points only. Points are (a) every basic block of the library (the
 * library is compiled with -fsanitize-coverage=trace-pc) and (b) the gaps between API calls.
 * Every schedule up to the preemption bound is executed; each operation must report what it
 * reports when it runs alone. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>
#include <bpak/merkle.h>
#include <bpak/transport.h>
#include <bpak/verify.h>
#include <bpak/crypto.h>
#include <bpak/keystore.h>
#include <bpak/utils.h>
#include <bpak/id.h>
#include <bpak/crc.h>
#include <bpak/heatshrink_decoder.h>
#include "heatshrink_encoder.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>

#define MAXOUT 8192
#define MAXPC 4000000
struct mem { uint8_t *d; size_t n, cap; };
union ctx {
    struct bpak_bsdiff_context bsdiff;
    struct bpak_bspatch_context bspatch;
    struct bpak_merkle_context merkle;
    struct bpak_transport_decode dec;
    struct { heatshrink_encoder e; heatshrink_decoder d; } hs;
    struct bpak_hash_context hash;
    struct { struct bpak_package p, q, r; } pkg;
    struct bpak_header h;
};
struct task {
    int kind, v, slot;
    union ctx *m;
    char out[MAXOUT];
    size_t on;
    /* scheduling */
    sem_t go;
    bool done;
    long count, sw[3];      /* basic blocks executed; switch before block sw[i] */
    int isw, nsw;
    long steps, abandon;    /* API steps executed; abandon at that step */
    bool ended;
};
static struct task TK[2];
static sem_t mainsem;
static __thread struct task *cur;
static bool rec;
static uintptr_t *pcs;
static const char *path_step; /* explicit order of API steps: '0' / '1' */
static size_t path_pos;

static void pass_to(struct task *from, struct task *to)
{
    sem_post(&to->go);
    while (sem_wait(&from->go)) ;
}
void __sanitizer_cov_trace_pc(void);
void __sanitizer_cov_trace_pc(void)
{
    struct task *t = cur;
    if (!t || t->ended) return;
    if (rec && t->count < MAXPC) pcs[t->count] = (uintptr_t)__builtin_return_address(0);
    t->count++;
    if (t->isw < t->nsw && t->count == t->sw[t->isw]) {
        struct task *o = &TK[1 - t->slot];
        t->isw++;
        if (!o->done) pass_to(t, o);
    }
}
/* between API calls; true: give up here */
static bool step(void)
{
    struct task *t = cur;
    t->steps++;
    if (path_step) {
        /* this step is entered when the path names this task */
        while (path_step[path_pos] && path_step[path_pos] - '0' != t->slot) {
            struct task *o = &TK[1 - t->slot];
            if (o->done) break;
            pass_to(t, o);
        }
        if (path_step[path_pos]) path_pos++;
    }
    if (t->abandon && t->steps == t->abandon) { t->ended = true; return true; }
    return false;
}
static void emit(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void emit(const char *fmt, ...)
{
    struct task *t = cur;
    va_list ap;
    va_start(ap, fmt);
    t->on += vsnprintf(t->out + t->on, MAXOUT - t->on, fmt, ap);
    va_end(ap);
    if (t->on >= MAXOUT - 1) t->on = MAXOUT - 1;
}
static void emith(const char *tag, const void *p, size_t n) { emit("%s: %zu bytes %016llx\n", tag, n, (unsigned long long)mc_hash(p, n, 1)); }

/* merkle salts: deterministic, one sequence per task */
long random(void);
long random(void) { return cur ? 1000 + cur->v : 1; }
int rand(void);
int rand(void) { return cur ? 1000 + cur->v : 1; }

static uint8_t D[2][40000];         /* content of the variants */
static ssize_t mwr(off_t off, uint8_t *b, size_t n, void *u)
{
    struct mem *m = u;
    if (off < 0 || off + n > m->cap) return -1;
    memcpy(m->d + off, b, n);
    if (off + n > m->n) m->n = off + n;
    return n;
}
static ssize_t mrd(off_t off, uint8_t *b, size_t n, void *u)
{
    struct mem *m = u;
    if (off < 0 || off + n > m->cap) return -1;
    memcpy(b, m->d + off, n);
    return n;
}
/* ---- the operations ---- */
static void t_header(struct task *t)
{
    struct bpak_header *h = &t->m->h;
    struct bpak_meta_header *mh;
    struct bpak_part_header *ph;
    char s[100];
    int v = t->v;
    if (step()) return;
    emit("init %d\n", bpak_init_header(h));
    emit("add %d\n", bpak_add_meta(h, pu_id("bpak-package"), 0, 16, &mh));
    memcpy(bpak_get_meta_ptr(h, mh, uint8_t), D[v] + 50, 16);
    if (step()) return;
    emit("add %d\n", bpak_add_meta(h, pu_id("x"), v, 10 + 7 * v, &mh));
    memcpy(bpak_get_meta_ptr(h, mh, uint8_t), D[v], 10 + 7 * v);
    emit("addpart %d\n", bpak_add_part(h, pu_id("a") + v, &ph));
    ph->size = 100 + 600 * v; ph->pad_bytes = 412 - v * 88; ph->offset = 4096;
    if (step()) return;
    emit("addpart %d\n", bpak_add_part(h, pu_id("b"), &ph));
    ph->size = 512; ph->offset = bpak_part_offset(h, ph);
    emit("offset %ld size %zu %zu\n", (long)bpak_part_offset(h, ph), bpak_part_size(ph), bpak_part_size_wo_pad(ph));
    emit("transport %d\n", bpak_add_transport_meta(h, pu_id("b"), 77 + v, 99 + v));
    if (step()) return;
    emit("get %d\n", bpak_get_meta(h, pu_id("x"), v, &mh));
    bpak_del_meta(h, mh);
    emit("any %d\n", bpak_get_meta_anyref(h, pu_id("bpak-transport"), &mh));
    emit("str %d %s\n", bpak_meta_to_string(h, mh, s, sizeof s), s);
    emit("pkg %d\n", bpak_get_meta(h, pu_id("bpak-package"), 0, &mh));
    emit("str %d %s\n", bpak_meta_to_string(h, mh, s, sizeof s), s);
    if (step()) return;
    emit("getpart %d\n", bpak_get_part(h, pu_id("a") + v, &ph));
    bpak_del_part(h, ph);
    emit("set %d %d\n", bpak_set_key_id(h, 5 + v), bpak_set_keystore_id(h, 6 + v));
    emit("valid %d\n", bpak_valid_header(h));
    emit("hex %d %s\n", bpak_bin2hex(D[v], 20, s, sizeof s), s);
    emit("ids %x %x %x %x\n", bpak_id(v ? "one" : "zero"), bpak_part_name_to_hash_tree_id(v ? "fs" : "gs"), bpak_hash_tree_id_to_part_id(h, bpak_part_id_to_hash_tree_id(pu_id("b"))), bpak_crc32(v, D[v], 30));
    emit("names %s %s %s %s\n", bpak_id_to_string(pu_id(v ? "merkle-salt" : "bpak-version")), bpak_hash_kind(1 + v), bpak_signature_kind(1 + v), bpak_error_string(-1 - v));
    emith("header", h, sizeof *h);
}
static void t_hash(struct task *t)
{
    struct bpak_hash_context *c = &t->m->hash;
    uint8_t o[64];
    size_t n;
    for (int k = 1; k <= 3; k++) {
        if (step()) return;
        emit("init %d\n", bpak_hash_init(c, t->v ? 4 - k : k));
        for (int i = 0; i < 2; i++) {
            emit("update %d\n", bpak_hash_update(c, D[t->v] + 100 * i, 70 + 30 * t->v));
            if (step()) { bpak_hash_free(c); return; }
        }
        n = 0;
        emit("final %d\n", bpak_hash_final(c, o, sizeof o, &n));
        emith("digest", o, n);
        bpak_hash_free(c);
    }
}
static void t_merkle(struct task *t)
{
    struct bpak_merkle_context *c = &t->m->merkle;
    size_t blocks = 130 + t->v, n = blocks * 4096;  /* two levels */
    struct mem mm = {.cap = 4 * 4096};
    uint8_t root[32], salt[32];
    memset(salt, 3 + t->v, 32);
    mm.d = calloc(1, mm.cap);
    if (step()) goto out;
    emit("size %zd\n", bpak_merkle_compute_size(n));
    emit("init %d\n", bpak_merkle_init(c, n, salt, 32, mwr, mrd, 0, t->v, &mm));
    size_t done = 0, seg = n / 4 + 100;
    while (done < n) {
        if (step()) goto out;
        size_t k = seg < n - done ? seg : n - done;
        while (k) {
            size_t q = k < 9000 ? k : 9000;
            int rc = bpak_merkle_write_chunk(c, D[t->v] + done % 4096 % 977, q);
            if (rc) emit("write %d\n", rc);
            k -= q; done += q;
        }
    }
    if (step()) goto out;
    emit("finish %d\n", bpak_merkle_finish(c, root));
    emith("root", root, 32);
    emith("tree", mm.d, mm.n);
out:
    bpak_hash_free(&c->running_hash);
    free(mm.d);
}
static void edit(int v, uint8_t *o, size_t *on, uint8_t *n, size_t *nn)
{
    *on = 500 + 90 * v;
    memcpy(o, D[v] + 1000, *on);
    memcpy(n, o, 300);
    memcpy(n + 300, D[v] + 3000, 60 + 10 * v);
    memcpy(n + 360 + 10 * v, o + 320, 100);
    *nn = 460 + 10 * v;
    n[20] ^= 0x55 + v;
}
static const enum bpak_compression CV[] = {BPAK_COMPRESSION_NONE, BPAK_COMPRESSION_HS, BPAK_COMPRESSION_LZMA};
static void t_diff(struct task *t, int comp)
{
    struct bpak_bsdiff_context *c = &t->m->bsdiff;
    uint8_t o[1000], n[1000];
    size_t on, nn;
    struct mem mm = {.cap = 60000};
    mm.d = calloc(1, mm.cap);
    edit(t->v, o, &on, n, &nn);
    if (step()) goto out2;
    emit("init %d\n", bpak_bsdiff_init(c, o, on, n, nn, mwr, 10, CV[comp], &mm));
    if (step()) goto out;
    emit("diff %zd\n", bpak_bsdiff(c));
    emith("delta", mm.d, mm.n);
    if (step()) goto out;
out:
    bpak_bsdiff_free(c);
out2:
    free(mm.d);
}
static void t_diff0(struct task *t) { t_diff(t, 0); }
static void t_diff1(struct task *t) { t_diff(t, 1); }
static void t_diff2(struct task *t) { t_diff(t, 2); }
static uint8_t *delta[2][3];
static size_t deltan[2][3];
struct pat { struct mem o, n; };
static ssize_t prd(off_t off, uint8_t *b, size_t n, void *u) { return mrd(off - 64, b, n, &((struct pat *)u)->o); }
static ssize_t pwr(off_t off, uint8_t *b, size_t n, void *u) { return mwr(off, b, n, &((struct pat *)u)->n); }
static void t_patch(struct task *t, int comp)
{
    struct bpak_bspatch_context *c = &t->m->bspatch;
    uint8_t o[1000], n[1000], work[128];
    size_t on, nn, dn = deltan[t->v][comp];
    struct pat p = {{o, 0, 0}, {NULL, 0, 2000}};
    edit(t->v, o, &on, n, &nn);
    p.o.n = p.o.cap = on;
    p.n.d = calloc(1, 2000);
    if (step()) { free(p.n.d); return; }
    emit("init %d\n", bpak_bspatch_init(c, work, sizeof work, dn, prd, 64, pwr, 5, CV[comp], &p));
    size_t pos = 0, seg = dn / 4 + 1;
    while (pos < dn) {
        if (step()) goto out;
        size_t k = seg < dn - pos ? seg : dn - pos;
        uint8_t b[2000];
        memcpy(b, delta[t->v][comp] + pos, k);
        emit("write %d\n", bpak_bspatch_write(c, b, k));
        pos += k;
    }
    if (step()) goto out;
    emit("final %zd\n", bpak_bspatch_final(c));
    emit("equal %d\n", p.n.n == nn + 5 && !memcmp(p.n.d + 5, n, nn));
out:
    bpak_bspatch_free(c);
    free(p.n.d);
}
static void t_patch0(struct task *t) { t_patch(t, 0); }
static void t_patch1(struct task *t) { t_patch(t, 1); }
static void t_patch2(struct task *t) { t_patch(t, 2); }
static void t_hs(struct task *t)
{
    heatshrink_encoder *e = &t->m->hs.e;
    heatshrink_decoder *d = &t->m->hs.d;
    uint8_t in[600], enc[2000], dec[2000];
    size_t en = 0, dn = 0, g, n = 500 + 50 * t->v;
    for (size_t i = 0; i < n; i++) in[i] = D[t->v][i % (90 + t->v)];
    if (step()) return;
    heatshrink_encoder_reset(e);
    for (size_t pos = 0; pos < n;) {
        if (heatshrink_encoder_sink(e, in + pos, n - pos, &g) < 0) break;
        pos += g;
        if (step()) return;
        while (heatshrink_encoder_poll(e, enc + en, 100, &g) == HSER_POLL_MORE) en += g;
        en += g;
    }
    while (heatshrink_encoder_finish(e) == HSER_FINISH_MORE) { heatshrink_encoder_poll(e, enc + en, 100, &g); en += g; }
    emith("encoded", enc, en);
    heatshrink_decoder_reset(d);
    for (size_t pos = 0; pos < en;) {
        if (step()) return;
        size_t k = en - pos < 90 ? en - pos : 90;
        if (heatshrink_decoder_sink(d, enc + pos, k, &g) < 0) break;
        pos += g;
        while (heatshrink_decoder_poll(d, dec + dn, 60, &g) == HSDR_POLL_MORE) dn += g;
        dn += g;
    }
    while (heatshrink_decoder_finish(d) == HSDR_FINISH_MORE) { if (heatshrink_decoder_poll(d, dec + dn, 100, &g) < 0) break; dn += g; }
    emit("equal %d\n", dn == n && !memcmp(dec, in, n));
}
static struct pu tgt[2], org[2], enc[2];
static ssize_t vrd(off_t off, uint8_t *b, size_t n, void *u)
{
    struct pu *p = u;
    if (off < 0 || off + n > p->len) return -1;
    memcpy(b, p->data + off, n);
    return n;
}
static void t_verify(struct task *t)
{
    struct pu *p = &tgt[t->v];
    uint8_t o[64];
    size_t n = sizeof o;
    struct bpak_header h = p->h;
    if (step()) return;
    emit("payload %d\n", bpak_verify_compute_payload_hash(&h, vrd, 0, p, o, &n));
    emith("payload hash", o, n);
    if (step()) return;
    n = sizeof o;
    emit("header %d\n", bpak_verify_compute_header_hash(&h, o, &n));
    emith("header hash", o, n);
    if (step()) return;
    emit("verify %d\n", bpak_verify_payload(&h, vrd, 0, p));
    if (step()) return;
    h.payload_hash[3] ^= 1;
    emit("verify damaged %d\n", bpak_verify_payload(&h, vrd, 0, p));
}
struct dd { struct mem out; struct pu *org; uint8_t hdr[4096]; };
static ssize_t dwo(off_t off, uint8_t *b, size_t n, void *u) { return mwr(off, b, n, &((struct dd *)u)->out); }
static ssize_t dro(off_t off, uint8_t *b, size_t n, void *u) { return mrd(off, b, n, &((struct dd *)u)->out); }
static ssize_t dwh(off_t off, uint8_t *b, size_t n, void *u) { memcpy(((struct dd *)u)->hdr + off, b, n); return n; }
static ssize_t drg(off_t off, uint8_t *b, size_t n, void *u) { return vrd(off, b, n, ((struct dd *)u)->org); }
static void t_decode(struct task *t)
{
    struct bpak_transport_decode *c = &t->m->dec;
    struct pu *e = &enc[t->v];
    struct dd d = {.org = &org[t->v]};
    struct bpak_header h = e->h, oh = org[t->v].h;
    uint8_t work[256];
    d.out.cap = tgt[t->v].len;
    d.out.d = calloc(1, d.out.cap);
    if (step()) { free(d.out.d); return; }
    emit("init %d\n", bpak_transport_decode_init(c, work, sizeof work, &h, dwo, dro, 0, dwh, &d));
    emit("origin %d\n", bpak_transport_decode_set_origin(c, &oh, drg, 0));
    for (int i = 0; i < 32 && e->h.parts[i].id; i++) {
        size_t n = pu_stored(&e->h.parts[i]), o = pu_offset(&e->h, i) - 4096;
        if (step()) goto out;
        emit("start %d\n", bpak_transport_decode_start(c, &h.parts[i]));
        while (n) {
            uint8_t b[3000];
            size_t k = n < 3000 ? n : 3000;
            memcpy(b, e->data + o, k);
            int rc = bpak_transport_decode_write_chunk(c, b, k);
            if (rc) emit("chunk %d\n", rc);
            n -= k; o += k;
        }
        emit("finish %d\n", bpak_transport_decode_finish(c));
    }
    emit("equal %d %d\n", d.out.n == tgt[t->v].len && !memcmp(d.out.d, tgt[t->v].data, d.out.n), !memcmp(d.hdr, &tgt[t->v].h, 4096));
out:
    bpak_transport_decode_free(c);
    free(d.out.d);
}
static const char *fn(struct task *t, const char *n)
{
    static __thread char b[8][300];
    static __thread int i;
    char *r = b[i++ & 7];
    snprintf(r, 300, "%s/s%d-%s", mc_scratch, t->slot, n);
    return r;
}
static const char *in(int v, const char *n)
{
    static __thread char b[8][300];
    static __thread int i;
    char *r = b[i++ & 7];
    snprintf(r, 300, "%s/v%d-%s", mc_scratch, v, n);
    return r;
}
static void emitfile(const char *tag, const char *f)
{
    size_t n;
    uint8_t *b = mc_read_file(f, &n);
    if (!b) { emit("%s: missing\n", tag); return; }
    emith(tag, b, n);
    free(b);
}
static void t_pkg(struct task *t)
{
    struct bpak_package *p = &t->m->pkg.p;
    char s[64];
    size_t n = 64;
    int v = t->v;
    unlink(fn(t, "p.bpak"));
    if (step()) return;
    emit("create %d\n", bpak_pkg_open(p, fn(t, "p.bpak"), "wb+"));
    emit("add %d\n", bpak_pkg_add_file(p, in(v, "a"), "a", 0));
    if (step()) goto out;
    emit("merkle %d\n", bpak_pkg_add_file_with_merkle_tree(p, in(v, "fs"), "fs", v));
    if (step()) goto out;
    emit("key %d\n", bpak_pkg_add_key(p, pu_key(v ? "p384-a.pub.pem" : "p256-a.pub.pem"), "k", 0));
    emit("delete %d\n", bpak_pkg_delete_part(p, pu_id("a"), true));
    if (step()) goto out;
    emit("extract %d\n", bpak_pkg_extract_file(p, pu_id("fs"), fn(t, "x")));
    emitfile("extracted", fn(t, "x"));
    emit("hash %d\n", bpak_pkg_update_hash(p, s, &n));
    emith("hash", s, n);
    n = 64;
    emit("sha %d\n", bpak_pkg_part_sha256(p, (uint8_t *)s, 32, pu_id("k")));
    emith("sha", s, 32);
    emit("sizes %zu %zu\n", bpak_pkg_size(p), bpak_pkg_installed_size(p));
    emit("write %d\n", bpak_pkg_write_header(p));
out:
    emit("close %d\n", bpak_pkg_close(p));
    emitfile("archive", fn(t, "p.bpak"));
}
static void t_encode(struct task *t)
{
    struct bpak_package *p = &t->m->pkg.p, *q = &t->m->pkg.q, *r = &t->m->pkg.r;
    int v = t->v;
    if (step()) return;
    emit("open %d %d %d\n", bpak_pkg_open(p, in(v, "tgt"), "rb"), bpak_pkg_open(q, fn(t, "enc"), "wb+"), bpak_pkg_open(r, in(v, "org"), "rb"));
    if (!step()) emit("encode %d\n", bpak_pkg_transport_encode(p, q, r));
    emit("close %d %d %d\n", bpak_pkg_close(p), bpak_pkg_close(q), bpak_pkg_close(r));
    emitfile("encoded", fn(t, "enc"));
}
static void t_pdecode(struct task *t)
{
    struct bpak_package *p = &t->m->pkg.p, *q = &t->m->pkg.q, *r = &t->m->pkg.r;
    int v = t->v;
    if (step()) return;
    emit("open %d %d %d\n", bpak_pkg_open(p, in(v, "enc"), "rb"), bpak_pkg_open(q, fn(t, "dec"), "wb+"), bpak_pkg_open(r, in(v, "org"), "rb"));
    if (!step()) emit("decode %d\n", bpak_pkg_transport_decode(p, q, r));
    emit("close %d %d %d\n", bpak_pkg_close(p), bpak_pkg_close(q), bpak_pkg_close(r));
    emitfile("decoded", fn(t, "dec"));
}
static void t_sign(struct task *t)
{
    struct bpak_package *p = &t->m->pkg.p;
    struct bpak_key *k = NULL, *w = NULL;
    struct pu A;
    int v = t->v;
    pu_save(&tgt[v], fn(t, "s.bpak"));
    if (step()) return;
    emit("open %d\n", bpak_pkg_open(p, fn(t, "s.bpak"), "rb+"));
    emit("sign %d\n", bpak_pkg_sign(p, pu_key(v ? "p384-a.pem" : "p256-a.pem")));
    if (step()) goto out;
    emit("load %d\n", bpak_crypto_load_public_key(pu_key(v ? "p384-a.pub.der" : "p256-a.pub.pem"), &k));
    emit("wrong %d\n", bpak_crypto_load_public_key(pu_key(v ? "p384-b.pub.pem" : "p256-b.pub.pem"), &w));
    if (k) { emith("key", k->data, k->size); emit("kind %d\n", k->kind); }
    if (step()) goto out;
    if (k) emit("verify %d\n", bpak_pkg_verify(p, k));
    if (w) emit("verify wrong %d\n", bpak_pkg_verify(p, w) != 0);
out:
    if (k) bpak_free(k);
    if (w) bpak_free(w);
    emit("close %d\n", bpak_pkg_close(p));
    if (!t->ended) {
        pu_init(&A, 1);
        pu_load(&A, fn(t, "s.bpak"));
        emit("signature %d\n", pu_verify_sig(&A.h, pu_key(v ? "p384-a.pub.pem" : "p256-a.pub.pem")));
        memset(A.h.signature, 0, sizeof A.h.signature); A.h.signature_sz = 0;
        emith("header", &A.h, 4096);
        pu_free(&A);
    }
}
static void t_keystore(struct task *t)
{
    struct bpak_key *k = NULL;
    int v = t->v;
    if (step()) return;
    emit("load %d\n", bpak_keystore_load_key_from_file(in(v, "ks"), 0x51 + v, pu_id("k1"), NULL, NULL, &k));
    if (k) { emith("key", k->data, k->size); emit("kind %d id %x\n", k->kind, k->id); bpak_free(k); k = NULL; }
    if (step()) return;
    emit("load %d\n", bpak_keystore_load_key_from_file(in(v, "ks"), 0x51 + v, pu_id("k2"), NULL, NULL, &k));
    if (k) { emith("key", k->data, k->size); emit("kind %d id %x\n", k->kind, k->id); bpak_free(k); k = NULL; }
    if (step()) return;
    emit("unknown %d\n", bpak_keystore_load_key_from_file(in(v, "ks"), 0x51 + v, pu_id("k3"), NULL, NULL, &k));
    emit("other %d\n", bpak_keystore_load_key_from_file(in(v, "ks"), 0x51 + !v, pu_id("k1"), NULL, NULL, &k));
}
static const struct { const char *n; void (*f)(struct task *); } K[] = {
    {"header and metadata operations", t_header}, {"hashing", t_hash}, {"hash tree generation", t_merkle},
    {"bsdiff", t_diff0}, {"bsdiff + heatshrink", t_diff1}, {"bsdiff + lzma", t_diff2},
    {"bspatch", t_patch0}, {"bspatch + heatshrink", t_patch1}, {"bspatch + lzma", t_patch2},
    {"heatshrink", t_hs}, {"header and payload verification", t_verify}, {"streaming transport decode", t_decode},
    {"archive modification", t_pkg}, {"archive transport encode", t_encode}, {"archive transport decode", t_pdecode},
    {"sign and verify", t_sign}, {"keystore lookup", t_keystore}};
#define NK ((int)(sizeof K / sizeof *K))

static union ctx CM[2];
static void *worker(void *a)
{
    struct task *t = a;
    for (;;) {
        while (sem_wait(&t->go)) ;
        cur = t;
        K[t->kind].f(t);
        cur = NULL;
        t->done = true;
        struct task *o = &TK[1 - t->slot];
        if (!o->done) sem_post(&o->go); else sem_post(&mainsem);
    }
    return NULL;
}
static void setup_task(int s, int kind, int v)
{
    struct task *t = &TK[s];
    t->kind = kind; t->v = v; t->on = 0; t->out[0] = 0; t->done = false; t->ended = false;
    t->count = t->steps = t->abandon = 0; t->isw = t->nsw = 0; t->m = &CM[s];
}
static void go(int first)
{
    struct timespec ts;
    path_pos = 0;
    mc_trans(1);
    sem_post(&TK[first].go);
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 120;
    while (sem_timedwait(&mainsem, &ts)) if (errno == ETIMEDOUT) mc_fail("no operation makes progress");
}
/* alone: the other slot counts as finished */
static void alone(int s, int kind, int v)
{
    setup_task(s, kind, v);
    memset(&CM[s], 0xA5, sizeof CM[s]);
    TK[1 - s].done = true;
    go(s);
}
static char base[NK][2][MAXOUT];
static long nsteps[NK][2], npts[NK][2];
static long *pts[NK][2];            /* chosen switch points (block counts) */
static int npt[NK][2];
struct pcent { uintptr_t pc; long first[4], last; int n; };
static int cmpl(const void *a, const void *b) { long x = *(long *)a, y = *(long *)b; return x < y ? -1 : x > y; }
static void record(int k, int v, int H)
{
    static struct pcent *tab;
    static const int TN = 1 << 14;
    if (!tab) tab = calloc(TN, sizeof *tab);
    memset(tab, 0, TN * sizeof *tab);
    rec = true;
    alone(0, k, v);
    rec = false;
    strcpy(base[k][v], TK[0].out);
    nsteps[k][v] = TK[0].steps;
    npts[k][v] = TK[0].count;
    if (TK[0].count > MAXPC) mc_die("%s: %ld blocks", K[k].n, TK[0].count);
    int distinct = 0;
    for (long i = 0; i < TK[0].count; i++) {
        int h = (pcs[i] * 0x9E3779B97F4A7C15ull) >> 50;
        while (tab[h].n && tab[h].pc != pcs[i]) h = (h + 1) % TN;
        if (!tab[h].n) { tab[h].pc = pcs[i]; distinct++; }
        if (tab[h].n < H) tab[h].first[tab[h].n] = i + 1;
        tab[h].n++;
        tab[h].last = i + 1;
    }
    pts[k][v] = malloc(distinct * (H + 1) * sizeof(long));
    int n = 0;
    for (int h = 0; h < TN; h++) {
        for (int i = 0; i < tab[h].n && i < H; i++) pts[k][v][n++] = tab[h].first[i];
        if (tab[h].n > H) pts[k][v][n++] = tab[h].last;
    }
    qsort(pts[k][v], n, sizeof(long), cmpl);
    npt[k][v] = n;
    mc_note("distinct library blocks used as switch points", mc_shard == 0 ? distinct : 0);
}
static void compare(int s, const char *how)
{
    struct task *t = &TK[s];
    const char *w = base[t->kind][t->v];
    mc_eval(1);
    if (!strcmp(t->out, w)) return;
    const char *a = t->out;
    const char *ls = w, *la = a;
    while (*a && *a == *w) { if (*a == '\n') { la = a + 1; ls = w + 1; } a++; w++; }
    mc_fail("%s: %s reports '%.*s' instead of '%.*s'", how, K[t->kind].n, (int)strcspn(la, "\n"), la, (int)strcspn(ls, "\n"), ls);
}
static void both(void) { compare(0, "interleaved"); compare(1, "interleaved"); mc_distinct(mc_hash(TK[0].out, TK[0].on, mc_hash(TK[1].out, TK[1].on, 3))); }
static char path[64];
static void paths(int na, int nb, int pos, int ka, int va, int kb, int vb)
{
    if (!na && !nb) {
        path[pos] = 0;
        if (!mc_mine()) return;
        mc_case("%s (%d) and %s (%d): API steps in the order %s", K[ka].n, va, K[kb].n, vb, path);
        setup_task(0, ka, va); setup_task(1, kb, vb);
        mc_state(mc_hash(path, pos, ka * 100 + kb));
        path_step = path;
        go(path[0] - '0');
        path_step = NULL;
        both();
        mc_note("interleavings of API steps", 1);
        return;
    }
    if (na) { path[pos] = '0'; paths(na - 1, nb, pos + 1, ka, va, kb, vb); }
    if (nb) { path[pos] = '1'; paths(na, nb - 1, pos + 1, ka, va, kb, vb); }
}
static void build(void)
{
    static uint8_t b[30000];
    char *ks[] = {"p256-a.pub.der", "p384-b.pub.der", "p521-a.pub.der", "p256-b.pub.der"};
    for (int v = 0; v < 2; v++) {
        pu_fill(D[v], sizeof D[v], 17 + v);
        struct pu *t = &tgt[v], *o = &org[v];
        pu_init(t, 1 + v); pu_init(o, 2);
        pu_uuid(t, 1 + v); pu_uuid(o, 1 + v);
        pu_part(o, pu_id("p"), D[v], 900 + v, 0);
        memcpy(b, D[v], 900); b[300] ^= 1; memmove(b + 500, b + 480, 300);
        pu_part(t, pu_id("p"), b, 850 - v, 0); pu_transport(t, pu_id("p"), v ? "bsdiff" : "bsdiff-lzma", v ? "bspatch" : "bspatch-lzma");
        pu_part(t, pu_id("c"), D[v] + 2000, 600, 0);
        memcpy(b, D[v] + 5000, 8192);
        pu_merkle_parts(o, "fs", b, 4096 * (1 + v), 1, 5);
        b[100 + v] ^= 2;
        pu_merkle_parts(t, "fs", b, 8192, 1, 9 + v);
        pu_transport(t, pu_id("fs"), "bsdiff-no-comp", "bspatch-no-comp");
        pu_transport(t, pu_tree_id(pu_id("fs")), "remove-data", "merkle-generate");
        pu_rehash(t); pu_rehash(o);
        pu_save(t, in(v, "tgt")); pu_save(o, in(v, "org"));
        mc_write_file(in(v, "a"), D[v] + 7, 700 + 400 * v);
        mc_write_file(in(v, "fs"), D[v] + 9000, 4096 * (2 + v));
        struct bpak_package p, q, r;
        bpak_pkg_open(&p, in(v, "tgt"), "rb"); bpak_pkg_open(&q, in(v, "enc"), "wb+"); bpak_pkg_open(&r, in(v, "org"), "rb");
        int rc = bpak_pkg_transport_encode(&p, &q, &r);
        bpak_pkg_close(&p); bpak_pkg_close(&q); bpak_pkg_close(&r);
        MC_CHECK(rc == 0, "encoding the packages used here returned %d", rc);
        pu_load(&enc[v], in(v, "enc"));
        for (int c = 0; c < 3; c++) {
            struct bpak_bsdiff_context d;
            uint8_t oo[1000], nn[1000];
            size_t on, n2;
            struct mem mm = {calloc(1, 60000), 0, 60000};
            edit(v, oo, &on, nn, &n2);
            rc = bpak_bsdiff_init(&d, oo, on, nn, n2, mwr, 0, CV[c], &mm);
            MC_CHECK(rc == 0 && bpak_bsdiff(&d) > 0, "bsdiff");
            bpak_bsdiff_free(&d);
            delta[v][c] = mm.d; deltan[v][c] = mm.n;
        }
        struct pu k;
        uint32_t id = 0x51 + v;
        size_t n;
        pu_init(&k, 1); pu_uuid(&k, 1);
        pu_meta(&k, pu_id("keystore-provider-id"), 0, &id, 4);
        for (int i = 0; i < 2; i++) {
            uint8_t *f = mc_read_file(pu_key(ks[2 * v + i]), &n);
            if (!f) mc_die("key");
            pu_part(&k, pu_id(i ? "k2" : "k1"), f, n, 0);
            free(f);
        }
        pu_rehash(&k); pu_sign(&k, pu_key("p256-a.pem"));
        pu_save(&k, in(v, "ks"));
        pu_free(&k);
    }
}
int mc_run(void)
{
    pthread_t th;
    pcs = malloc(MAXPC * sizeof *pcs);
    mc_case("preparing");
    mc_watchdog(600);
    build();
    sem_init(&mainsem, 0, 0);
    for (int i = 0; i < 2; i++) {
        TK[i].slot = i;
        sem_init(&TK[i].go, 0, 0);
        pthread_create(&th, NULL, worker, &TK[i]);
    }
    int H = mc_thorough ? 4 : 1;
    for (int k = 0; k < NK; k++)
        for (int v = 0; v < 2; v++) {
            mc_case("%s (%d) alone, twice", K[k].n, v);
            record(k, v, H);
            alone(1, k, v);
            compare(1, "repeated");
            if (mc_shard == 0) mc_sample("%s: %ld library blocks, %d switch points, %ld steps", K[k].n, npts[k][v], npt[k][v], nsteps[k][v]);
            if (getenv("MC_OPS")) fprintf(stderr, "%s %d: %ld blocks, %d points, %ld steps\n%s\n", K[k].n, v, npts[k][v], npt[k][v], nsteps[k][v], base[k][v]);
        }
    const char *only = getenv("MC_SC");
    /* one preemption: A stops before block i, B runs to its end, A goes on */
    for (int a = 0; a < NK; a++)
        for (int b = 0; b < NK; b++)
            for (int vv = 0; vv < 4; vv++) {
                int va = vv & 1, vb = vv >> 1;
                if (only && atoi(only) != a) continue;
                if (va == vb && !(mc_thorough || (a == b && va == 0))) continue;
                if (!mc_thorough && a != b && va) continue;
                /* quick: different operations are switched at every second point, shifted from pair to pair */
                int st = mc_thorough || a == b ? 1 : 2;
                for (int i = (a + b) % st; i < npt[a][va]; i += st) {
                    if (!mc_mine()) continue;
                    mc_state(mc_hash(&(long[]){a, b, vv, pts[a][va][i], 0}, 40, 1));
                    mc_case("%s (%d) stops at block %ld, %s (%d) runs", K[a].n, va, pts[a][va][i], K[b].n, vb);
                    setup_task(0, a, va); setup_task(1, b, vb);
                    TK[0].nsw = 1; TK[0].sw[0] = pts[a][va][i];
                    go(0);
                    both();
                    mc_note("schedules with one preemption", 1);
                }
            }
    /* two preemptions: A stops at i, B stops at j, A runs to its end, B goes on */
    for (int a = 0; a < NK; a++)
        for (int b = 0; b < NK; b++) {
            if (only && atoi(only) != a) continue;
            long lim = mc_thorough ? (a == b ? 400 : 60) : a == b ? 40 : 6;
            long sa = (npt[a][0] + lim - 1) / lim, sb = (npt[b][1] + lim - 1) / lim;
            if (sa < 1) sa = 1;
            if (sb < 1) sb = 1;
            for (int i = 0; i < npt[a][0]; i += sa)
                for (int j = (i / sa) % sb; j < npt[b][1]; j += sb) {
                    if (!mc_mine()) continue;
                    mc_case("%s stops at block %ld, %s at block %ld", K[a].n, pts[a][0][i], K[b].n, pts[b][1][j]);
                    mc_state(mc_hash(&(long[]){a, b, 0, pts[a][0][i], pts[b][1][j]}, 40, 1));
                    setup_task(0, a, 0); setup_task(1, b, 1);
                    TK[0].nsw = 1; TK[0].sw[0] = pts[a][0][i];
                    TK[1].nsw = 1; TK[1].sw[0] = pts[b][1][j];
                    go(0);
                    both();
                    mc_note("schedules with two preemptions", 1);
                }
        }
    /* every order of the API calls of two operations */
    for (int a = 0; a < NK; a++)
        for (int b = a; b < NK; b++) {
            if (only && atoi(only) != a) continue;
            int na = nsteps[a][0], nb = nsteps[b][1];
            double c = 1;
            for (int i = 1; i <= nb; i++) c = c * (na + i) / i;
            if (c > (mc_thorough ? 20000 : a == b ? 1000 : 300)) { mc_note("pairs whose API orders are not all explored", mc_shard == 0); continue; }
            paths(na, nb, 0, a, 0, b, 1);
        }
    /* an operation given up at any API call does not affect the next one on the same memory */
    for (int a = 0; a < NK; a++)
        for (int b = 0; b < NK; b++)
            for (int v = 0; v < 2; v++)
                for (int s = 1; s <= nsteps[a][v]; s++) {
                    if (only && atoi(only) != a) continue;
                    if (!mc_mine()) continue;
                    mc_case("%s (%d) given up at step %d, then %s on the same memory", K[a].n, v, s, K[b].n);
                    setup_task(0, a, v);
                    TK[0].abandon = s;
                    TK[1].done = true;
                    go(0);
                    setup_task(0, b, !v);
                    TK[1].done = true;
                    go(0);
                    compare(0, "after an abandoned operation");
                    mc_note("abandoned operations", 1);
                }
    return 0;
}
