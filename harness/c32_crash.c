/* C32: the process is killed between any two system calls of an operation on an archive. Each
 * operation runs in a traced child; the archive file is looked at after every system call of
 * it, every new content is a state a kill leaves behind. Operations go on from those states. */
#define _GNU_SOURCE
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/verify.h>
#include <bpak/crypto.h>
#include <bpak/keystore.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <getopt.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/wait.h>

/* the salt of a hash tree must not differ from run to run */
long random(void) { static unsigned long s = 77; s = s * 6364136223846793005ul + 1442695040888963407ul; return s >> 33; }

struct img { bool there; size_t n; uint8_t *d; };
static struct img dup_(struct img i)
{
    struct img r = i;
    r.d = malloc(i.n + 1);
    if (i.n) memcpy(r.d, i.d, i.n);
    return r;
}
static struct img load(const char *p)
{
    struct img r = {0};
    int fd = open(p, O_RDONLY);
    if (fd < 0) { r.d = calloc(1, 1); return r; }
    struct stat st;
    fstat(fd, &st);
    r.there = true;
    r.d = malloc(st.st_size + 1);
    ssize_t k = pread(fd, r.d, st.st_size, 0);
    r.n = k < 0 ? 0 : k;
    close(fd);
    return r;
}
static void store(const char *p, struct img i)
{
    if (!i.there) { unlink(p); return; }
    int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0 || write(fd, i.d, i.n) != (ssize_t)i.n) mc_die("store");
    close(fd);
}
static bool same(struct img a, struct img b) { return a.there == b.there && a.n == b.n && !memcmp(a.d, b.d, a.n); }
static uint64_t hashi(struct img a) { return mc_hash(a.d, a.n, a.there); }
static const struct bpak_header *hd(struct img i) { return (const void *)i.d; }
/* header and parts; what lies behind them is not part of the archive */
static size_t core(struct img i)
{
    size_t l = 4096;
    for (int k = 0; k < 32; k++) l += pu_stored(&hd(i)->parts[k]);
    return l;
}
static bool whole(struct img i) { return i.there && i.n >= 4096 && hd(i)->magic == 0x42504132 && i.n >= core(i); }
static bool eqcore(struct img a, struct img b)
{
    if (!whole(b)) return same(a, b);
    return whole(a) && core(a) == core(b) && !memcmp(a.d, b.d, core(b));
}
static struct img clean(struct img i)
{
    struct img r = dup_(i);
    if (whole(r)) r.n = core(r);
    return r;
}

/* ---- operations ---- */
enum { O_DEL = 1, O_SIGN = 2, O_TREE = 4, O_LIB = 8, O_CREATE = 16, O_BIG = 32, O_OUT = 64 };
struct op { const char *name; int fl; const char *a[14]; int lib[6]; };
#define A "a.bpak"
static const struct op ops[] = {
    {"add part of 600 bytes", 0, {"add", A, "--part", "p1", "--from-file", "s600"}},
    {"add part of 9000 bytes", 0, {"add", A, "--part", "p2", "--from-file", "s9000"}},
    {"add empty part", 0, {"add", A, "--part", "p0", "--from-file", "s0"}},
    {"add excluded part", 0, {"add", A, "--part", "px", "--from-file", "s5000", "--set-flag", "dont-hash"}},
    {"add part with tree", O_TREE, {"add", A, "--part", "t1", "--from-file", "s8192", "--encoder", "merkle"}},
    {"add excluded part with tree", O_TREE, {"add", A, "--part", "t2", "--from-file", "s4096", "--encoder", "merkle", "--set-flag", "dont-hash"}},
    {"add part whose tree exists", O_TREE, {"add", A, "--part", "tx", "--from-file", "s8192", "--encoder", "merkle"}},
    {"add key", 0, {"add", A, "--part", "k1", "--from-file", "key", "--encoder", "key"}},
    {"add text", 0, {"add", A, "--meta", "note", "--from-string", "some text"}},
    {"add number of part", 0, {"add", A, "--meta", "num", "--from-string", "77", "--encoder", "integer", "--part-ref", "p1"}},
    {"add missing file", 0, {"add", A, "--part", "pm", "--from-file", "missing"}},
    {"set text", 0, {"set", A, "--meta", "text", "--from-string", "new t"}},
    {"set key id", 0, {"set", A, "--key-id", "0x4711", "--keystore-id", "0x815"}},
    {"add transport", 0, {"transport", A, "--add", "--part", "data", "--encoder", "bsdiff", "--decoder", "bspatch"}},
    {"sign", O_SIGN, {"sign", A, "--key", "pri"}},
    {"write signature", 0, {"sign", A, "--signature", "s600b"}},
    {"delete first part", O_DEL, {"delete", A, "--part", "data"}},
    {"delete added part", O_DEL, {"delete", A, "--part", "p1"}},
    {"delete tree", O_DEL, {"delete", A, "--part", "t1"}},
    {"delete all parts", O_DEL, {"delete", A, "--all"}},
    {"create again", O_CREATE, {"create", A, "--force", "--hash-kind", "sha512"}},
    /* one package object, several calls */
    {"session: add, add, add key", O_LIB, {0}, {1, 2, 3}},
    {"session: add, tree, add", O_LIB, {0}, {1, 4, 2}},
    {"session: tree, key, signature", O_LIB, {0}, {4, 3, 8}},
    {"session: add, delete it, add", O_LIB | O_DEL, {0}, {1, 5, 2}},
    {"session: delete, add, signature", O_LIB | O_DEL, {0}, {6, 1, 8}},
    {"session: delete all, add, tree", O_LIB | O_DEL, {0}, {7, 1, 4}},
    {"add part with tree of two levels", O_TREE | O_BIG, {"add", A, "--part", "tb", "--from-file", "sbig", "--encoder", "merkle"}},
    {"session: big parts", O_LIB | O_BIG, {0}, {9, 1, 9}},
};
#define NOP ((int)(sizeof ops / sizeof *ops))
static int session(const struct op *o, int upto)
{
    struct bpak_package p;
    int rc = bpak_pkg_open(&p, A, "r+b");
    uint8_t sig[512];
    if (rc) return 100 - rc;
    for (int i = 0; i < upto && o->lib[i]; i++) {
        switch (o->lib[i]) {
        case 1: rc = bpak_pkg_add_file(&p, "s600", "p1", 0); break;
        case 2: rc = bpak_pkg_add_file(&p, "s9000", "p2", 0); break;
        case 3: rc = bpak_pkg_add_key(&p, "key", "k1", 0); break;
        case 4: rc = bpak_pkg_add_file_with_merkle_tree(&p, "s8192", "t1", 0); break;
        case 5: rc = bpak_pkg_delete_part(&p, pu_id("p1"), true); break;
        case 6: rc = bpak_pkg_delete_part(&p, pu_id("data"), true); break;
        case 7: rc = bpak_pkg_delete_all_parts(&p, true); break;
        case 8: memset(sig, 0x5a, sizeof sig); rc = bpak_pkg_write_raw_signature(&p, sig, 300); break;
        case 9: rc = bpak_pkg_add_file(&p, "sbig", i ? "b2" : "b1", 0); break;
        }
    }
    int c = bpak_pkg_close(&p);
    return c ? 90 : rc ? 1 : 0;
}
static int arg_n(const struct op *o, char **v)
{
    int n = 0;
    v[n++] = "bpak";
    for (int i = 0; o->a[i]; i++) v[n++] = (char *)o->a[i];
    v[n] = NULL;
    return n;
}
static int body(const struct op *o, int upto)
{
    char *v[16];
    int n;
    if (o->fl & O_LIB) return session(o, upto);
    n = arg_n(o, v);
    optind = 0;
    return bpak_tool_main(n, v) & 0xff;
}
/* Runs an operation; with cb every content of the watched file that can be left behind is shown. */
static int run(const struct op *o, int upto, const char *watch, void (*cb)(struct img prev, struct img now))
{
    int st, rc = -1, stops = 0;
    struct img last = load(watch);
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) mc_die("fork");
    if (!pid) {
        int nul = open("/dev/null", O_RDWR);
        dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
        close(nul);
        if (chdir(mc_scratch)) _exit(91);
        if (cb) {
            if (ptrace(PTRACE_TRACEME, 0, NULL, NULL)) _exit(92);
            raise(SIGSTOP);
        }
        int r = body(o, upto);
        fflush(NULL);
        _exit(r);
    }
    bool first = true;
    for (;;) {
        while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) mc_die("waitpid");
        if (WIFEXITED(st)) { rc = WEXITSTATUS(st); break; }
        if (WIFSIGNALED(st)) mc_fail("the operation crashed (signal %d)", WTERMSIG(st));
        int sig = WSTOPSIG(st);
        if (first) {
            if (ptrace(PTRACE_SETOPTIONS, pid, NULL, (void *)(long)(PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL))) mc_die("ptrace");
            first = false;
            sig = 0;
        } else if (sig == (SIGTRAP | 0x80)) {
            sig = 0;
            if (++stops > 2000000) mc_fail("the operation does not terminate");
            struct img now = load(watch);
            if (!same(now, last)) {
                cb(last, now);
                free(last.d);
                last = now;
            } else free(now.d);
        }
        if (ptrace(PTRACE_SYSCALL, pid, NULL, (void *)(long)sig)) mc_die("ptrace: %s", strerror(errno));
    }
    if (rc == 91 || rc == 92) mc_die("tracing is not possible here");
    free(last.d);
    mc_trans(1 + stops / 2);
    return rc;
}

/* ---- what may be left ---- */
#define MAXOK 10
static struct img okv[MAXOK]; /* [0] before, the others complete results */
static int nok;
static const struct op *cop;
static struct img found[400];
static int nfound;
static char where[300];

static bool covered_equal(struct img s, struct img ref)
{
    if (memcmp(s.d, ref.d, 4096)) return false;
    const struct bpak_header *h = hd(ref);
    for (int i = 0; i < 32 && h->parts[i].id; i++) {
        size_t o = pu_offset(h, i), n = pu_stored(&h->parts[i]);
        bool tree = false;
        for (int k = 0; k < 32; k++)
            if (h->meta[k].id == pu_id("merkle-root-hash") && (h->meta[k].part_id_ref == h->parts[i].id || pu_tree_id(h->meta[k].part_id_ref) == h->parts[i].id)) tree = true;
        if ((h->parts[i].flags & 1) && !tree) continue;
        if (o + n > s.n || memcmp(s.d + o, ref.d + o, n)) return false;
    }
    return true;
}
static struct img vimg;
static ssize_t vread(off_t off, uint8_t *b, size_t n, void *u)
{
    (void)u;
    if (off < 0 || (size_t)off > vimg.n || n > vimg.n - off) return -BPAK_READ_ERROR;
    memcpy(b, vimg.d + off, n);
    return n;
}
static bool accepted(struct img s)
{
    struct bpak_header h;
    if (!s.there || s.n < 4096) return false;
    memcpy(&h, s.d, 4096);
    if (bpak_valid_header(&h)) return false;
    vimg = s;
    return bpak_verify_payload(&h, vread, 4096, NULL) == BPAK_OK;
}
static void judge(struct img s, const char *how)
{
    mc_eval(1);
    mc_distinct(hashi(s));
    for (int i = 0; i < nok; i++) {
        if (eqcore(s, okv[i])) goto good;
        if ((cop->fl & O_SIGN) && i && whole(s) && core(s) == core(okv[i]) && !memcmp(s.d, okv[i].d, 3582) && !memcmp(s.d + 4096, okv[i].d + 4096, core(s) - 4096) &&
            pu_verify_sig(hd(s), pu_key("p256-a.pub.pem"))) goto good;
    }
    if ((cop->fl & O_CREATE) && s.there && s.n == 0) return; /* emptied, the new header comes next */
    if ((cop->fl & O_CREATE) && whole(s) && !hd(s)->parts[0].id && !hd(s)->meta[0].id && s.n == 4096) goto good; /* an archive with the default kinds */
    if (cop->fl & O_DEL) { /* must be noticed */
        if (!accepted(s)) { mc_note("damaged, refused", 1); return; }
        for (int i = 0; i < nok; i++) if (covered_equal(s, okv[i])) return;
        mc_fail("%s: killed %s, the archive is neither the one before nor the one after, but its payload is accepted", where, how);
    }
    mc_fail("%s: killed %s, the archive is neither the one before nor the complete one (%zu bytes, before %zu, after %zu; header %s)", where, how, s.n, okv[0].n, okv[nok - 1].n,
            s.n < 4096 ? "missing" : !memcmp(s.d, okv[0].d, 4096) ? "of before" : okv[nok - 1].n >= 4096 && !memcmp(s.d, okv[nok - 1].d, 4096) ? "of after" : "of neither");
good:
    for (int i = 0; i < nfound; i++) if (same(found[i], s)) return;
    if (nfound == 400) return;
    found[nfound++] = dup_(s);
}
static void on_state(struct img prev, struct img now)
{
    /* a write that was cut short: data behind the header only */
    if (prev.n >= 4096 && now.n >= 4096 && !memcmp(prev.d, now.d, 4096)) {
        size_t a = 4096, b = now.n;
        while (a < b && a < prev.n && prev.d[a] == now.d[a]) a++;
        while (b > a && b <= prev.n && prev.d[b - 1] == now.d[b - 1]) b--;
        static const size_t cut[] = {1, 512, 0};
        size_t last = 0;
        for (size_t k = 0; b - a > 1 && now.n >= prev.n && k < (b - a > 40000 ? 2 : 8 + (b - a) / 512); k++) {
            size_t c = k < 2 ? cut[k] : k == 2 ? (b - a) / 2 : k == 3 ? b - a - 1 : (k - 3) * 512;
            if (c >= b - a || c == last) continue;
            last = c;
            struct img t = {true, a + c > prev.n ? a + c : prev.n, malloc(now.n + 1)};
            memcpy(t.d, prev.d, prev.n);
            memcpy(t.d + a, now.d + a, c);
            judge(t, "in the middle of a write");
            free(t.d);
        }
    }
    judge(now, "after a write");
}

static const char *APATH;
static struct img ref(struct img from, const struct op *o, int upto, int *rc)
{
    store(APATH, from);
    int r = run(o, upto, APATH, NULL);
    if (rc) *rc = r;
    return load(APATH);
}
static struct op part_only(const struct op *o) /* the first half of adding a file with its tree */
{
    struct op p = *o;
    int n = 0;
    for (int i = 0; o->a[i]; i++) {
        if (!strcmp(o->a[i], "--encoder")) { i++; continue; }
        p.a[n++] = o->a[i];
    }
    p.a[n] = NULL;
    return p;
}
/* explore `o` from `s`; the states left are put into out */
static int step(struct img s, int oi, struct img *out, int max)
{
    const struct op *o = cop = &ops[oi];
    struct img c = clean(s);
    int rc1 = 0, rc2;
    nok = nfound = 0;
    okv[nok++] = dup_(c);
    if (o->fl & O_LIB)
        for (int k = 1; k <= 6 && o->lib[k - 1]; k++) {
            if (o->lib[k - 1] == 4) { /* the data part may be there without its tree */
                struct img x = ref(c, o, k - 1, &rc1), y;
                struct op half = {"", 0, {"add", A, "--part", "t1", "--from-file", "s8192"}};
                y = ref(x, &half, 0, &rc1);
                free(x.d);
                okv[nok++] = y;
            }
            okv[nok++] = ref(c, o, k, &rc1);
        }
    else {
        if (o->fl & O_TREE) { struct op p = part_only(o); okv[nok++] = ref(c, &p, 0, &rc1); }
        okv[nok++] = ref(c, o, 0, &rc1);
    }
    store(APATH, s);
    rc2 = run(o, 6, APATH, on_state);
    if (rc1 != rc2) mc_fail("%s: fails (%d) or succeeds other than on the archive without the remains of a killed operation (%d)", where, rc2, rc1);
    struct img end = load(APATH);
    struct img *want = &okv[nok - 1];
    bool ok = eqcore(end, *want);
    if (o->fl & O_SIGN) ok = ok || (rc2 == 0 && whole(end) && !memcmp(end.d, want->d, 3582) && core(end) == core(*want) && !memcmp(end.d + 4096, want->d + 4096, core(end) - 4096) && pu_verify_sig(hd(end), pu_key("p256-a.pub.pem")));
    if (!ok) mc_fail("%s: the result differs from that of the operation on the archive without the remains of a killed operation", where);
    if (rc1 == 0 && !(o->fl & (O_LIB | O_CREATE)) && whole(end)) { /* a complete result is consistent */
        uint8_t d[64];
        pu_payload_digest(hd(end), end.d + 4096, d);
        if (memcmp(d, hd(end)->payload_hash, 64)) mc_fail("%s: the payload hash is wrong", where);
    }
    free(end.d);
    int n = 0;
    for (int i = 0; i < nfound; i++) {
        if (n < max) out[n++] = found[i];
        else free(found[i].d);
    }
    for (int i = 0; i < nok; i++) free(okv[i].d);
    free(c.d);
    nfound = 0;
    return n;
}

static struct img init[4];
static const char *iname[] = {"new archive", "archive with parts and metadata", "signed archive with trees", "archive with encoded part"};
static uint8_t R[600000];
static struct img from_pu(struct pu *p)
{
    struct img i = {true, 4096 + p->len, malloc(4096 + p->len + 1)};
    memcpy(i.d, &p->h, 4096);
    memcpy(i.d + 4096, p->data, p->len);
    pu_free(p);
    return i;
}
static void setup(void)
{
    struct pu p;
    pu_fill(R, sizeof R, 5);
    mc_write_file(mc_path("s0"), R, 0);
    mc_write_file(mc_path("s600"), R, 600);
    mc_write_file(mc_path("s600b"), R + 1000, 400);
    mc_write_file(mc_path("s9000"), R + 2000, 9000);
    mc_write_file(mc_path("s5000"), R + 3000, 5000);
    mc_write_file(mc_path("s8192"), R + 4000, 8192);
    mc_write_file(mc_path("s4096"), R + 5000, 4096);
    mc_write_file(mc_path("sbig"), R, 131 * 4096);
    size_t n;
    uint8_t *k = mc_read_file(pu_key("p256-b.pub.pem"), &n);
    mc_write_file(mc_path("key"), k, n); free(k);
    k = mc_read_file(pu_key("p256-a.pem"), &n);
    mc_write_file(mc_path("pri"), k, n); free(k);
    k = mc_read_file(pu_key("p256-a.pub.pem"), &n);
    mc_write_file(mc_path("pub"), k, n); free(k);
    pu_init(&p, 1); pu_rehash(&p); init[0] = from_pu(&p);
    pu_init(&p, 2);
    pu_uuid(&p, 1);
    pu_meta(&p, pu_id("text"), 0, "hello", 6);
    pu_meta(&p, pu_id("text"), pu_id("data"), "bound", 6);
    pu_part(&p, pu_id("data"), R + 10, 700, 0);
    pu_part(&p, pu_id("other"), R + 20, 5000, 0);
    pu_part(&p, pu_tree_id(pu_id("tx")), R + 30, 1000, 0);
    pu_rehash(&p); init[1] = from_pu(&p);
    pu_init(&p, 1);
    pu_uuid(&p, 2);
    pu_meta(&p, pu_id("text"), 0, "hello", 6);
    pu_part(&p, pu_id("data"), R + 10, 3000, 0);
    pu_merkle_parts(&p, "fs", R + 50, 8192, 1, 7);
    pu_merkle_parts(&p, "gs", R + 70, 4096, 0, 9);
    pu_part(&p, pu_id("tail"), R + 99, 200, 0);
    pu_rehash(&p); pu_sign(&p, pu_key("p256-a.pem")); init[2] = from_pu(&p);
    pu_init(&p, 3);
    pu_uuid(&p, 3);
    pu_part_t(&p, pu_id("data"), R + 400, 333, 5000, 120, 0);
    pu_part(&p, pu_id("other"), R + 20, 900, 0);
    pu_transport(&p, pu_id("other"), "bsdiff", "bspatch");
    pu_rehash(&p); init[3] = from_pu(&p);
}

/* ---- transport coding into another file ---- */
static struct img pieces[2000];
static int npieces;
static void collect(struct img prev, struct img now)
{
    (void)prev;
    if (npieces < 2000) pieces[npieces++] = dup_(now);
}
static bool signed_ok(struct img s)
{
    store(mc_path("v.bpak"), s);
    struct bpak_package p;
    struct bpak_key *key = NULL;
    if (!s.there || bpak_pkg_open(&p, mc_path("v.bpak"), "rb")) return false;
    if (bpak_crypto_load_public_key(pu_key("p256-a.pub.pem"), &key)) mc_die("key");
    int rc = bpak_pkg_verify(&p, key);
    bpak_pkg_close(&p);
    free(key);
    return rc == BPAK_OK;
}
static void transport(int kind)
{
    static const char *const enc[] = {"bsdiff", "bsdiff-no-comp", "bsdiff-lzma", NULL};
    static const char *const dec[] = {"bspatch", "bspatch-no-comp", "bspatch-lzma", NULL};
    struct pu o, t;
    for (int w = 0; w < 2; w++) {
        struct pu *p = w ? &t : &o;
        pu_init(p, 1);
        pu_uuid(p, 1);
        pu_part(p, pu_id("data"), R + 10 + 5 * w, 3000 + w, 0);
        pu_merkle_parts(p, "fs", R + 50 + 64 * w, 8192, kind & 1, 7 + w);
        pu_part(p, pu_id("tail"), R + 99 + w, 9000, 0);
        if (enc[kind]) pu_transport(p, pu_id("data"), enc[kind], dec[kind]);
        if (enc[kind]) pu_transport(p, pu_id("fs"), enc[kind], dec[kind]);
        pu_transport(p, pu_tree_id(pu_id("fs")), "remove-data", "merkle-generate");
        pu_rehash(p);
        pu_sign(p, pu_key("p256-a.pem"));
    }
    struct img org = from_pu(&o), tgt = from_pu(&t);
    static const struct op E = {"encode", O_OUT, {"transport", "t.bpak", "--encode", "--origin", "o.bpak", "--output", "out.bpak"}};
    static const struct op D = {"decode", O_OUT, {"transport", "e.bpak", "--decode", "--origin", "o.bpak", "--output", "out.bpak"}};
    char OUT[300];
    snprintf(OUT, sizeof OUT, "%s", mc_path("out.bpak"));
    for (int pre = 0; pre < 3; pre++) { /* the output: missing, an old package, the target itself */
        mc_case("transport coding, algorithms %s, output %s", enc[kind] ? enc[kind] : "copy", pre == 0 ? "missing" : pre == 1 ? "holds the origin" : "holds the target");
        struct img none = {0};
        none.d = (uint8_t *)"";
        store(mc_path("o.bpak"), org);
        store(mc_path("t.bpak"), tgt);
        store(OUT, pre == 0 ? none : pre == 1 ? org : tgt);
        npieces = 0;
        if (run(&E, 0, OUT, collect)) mc_fail("encoding fails");
        struct img full = load(OUT);
        /* what a killed encoder leaves is never decoded to anything accepted but the target */
        int ne = npieces;
        for (int i = 0; i < ne; i++) {
            struct img x = pieces[i];
            mc_state(hashi(x));
            store(mc_path("e.bpak"), x);
            unlink(OUT);
            int rc = run(&D, 0, OUT, NULL);
            struct img got = load(OUT);
            mc_eval(1);
            if (rc == 0 && !same(got, tgt) && signed_ok(got)) mc_fail("what a killed encoder leaves (state %d of %d) decodes to another package that verifies", i, ne);
            free(got.d);
            if (signed_ok(x) && !same(x, tgt) && !same(x, org)) mc_fail("what a killed encoder leaves (state %d of %d) verifies", i, ne);
            free(x.d);
        }
        struct img o2 = load(mc_path("o.bpak")), t2 = load(mc_path("t.bpak"));
        if (!same(o2, org) || !same(t2, tgt)) mc_fail("encoding changed a file it reads");
        free(o2.d); free(t2.d);
        /* and of a killed decoder nothing verifies but the target; decoding again completes it */
        store(mc_path("e.bpak"), full);
        store(OUT, pre == 0 ? none : pre == 1 ? org : tgt);
        npieces = 0;
        if (run(&D, 0, OUT, collect)) mc_fail("decoding fails");
        struct img got = load(OUT);
        if (!same(got, tgt)) mc_fail("the decoded package is not the target");
        free(got.d);
        int nd = npieces;
        for (int i = 0; i < nd; i++) {
            struct img x = pieces[i];
            mc_eval(1);
            mc_state(hashi(x));
            if (signed_ok(x)) {
                bool cov = x.n >= 4096 && covered_equal(x, tgt), old = same(x, org);
                if (!cov && !old) mc_fail("what a killed decoder leaves (state %d of %d) verifies", i, nd);
            }
            store(OUT, x);
            if (run(&D, 0, OUT, NULL)) mc_fail("decoding again over what a killed decoder left (state %d of %d) fails", i, nd);
            got = load(OUT);
            if (!eqcore(got, tgt)) mc_fail("decoding again over what a killed decoder left (state %d of %d) does not give the target", i, nd);
            free(got.d);
            free(x.d);
        }
        mc_note("states of coders", ne + nd);
        free(full.d);
    }
    free(org.d); free(tgt.d);
}

static int used_depth;
static void explore(struct img s, const int *seq, int n, int at, char *path)
{
    struct img out[400];
    char save[300];
    snprintf(save, sizeof save, "%s", path);
    size_t l = strlen(path);
    snprintf(path + l, 300 - l, "%s%s", at ? ", killed, then " : "", ops[seq[at]].name);
    snprintf(where, sizeof where, "%s", path);
    int k = step(s, seq[at], out, 400);
    if (at + 1 > used_depth) used_depth = at + 1;
    for (int i = 0; i < k; i++) {
        mc_state(hashi(out[i]));
        if (at + 1 < n) explore(out[i], seq, n, at + 1, path);
        free(out[i].d);
    }
    snprintf(path, 300, "%s", save);
}
int mc_run(void)
{
    static char ap[300];
    snprintf(ap, sizeof ap, "%s", mc_path(A));
    APATH = ap;
    setup();
    int depth = mc_thorough ? 3 : 2;
    for (int k = 0; k < 4; k++)
        if (mc_mine()) transport(k);
    for (int i = 0; i < 4; i++)
        for (int a = 0; a < NOP; a++) {
            if (ops[a].fl & O_BIG) {
                if (!mc_mine()) continue;
                mc_case("%s: %s", iname[i], ops[a].name);
                char path[300] = "";
                explore(init[i], &a, 1, 0, path);
                continue;
            }
            for (int b = 0; b < NOP; b++) {
                if (ops[b].fl & O_BIG) continue;
                for (int c = 0; c < (depth > 2 ? NOP : 1); c++) {
                    if (depth > 2 && ops[c].fl & O_BIG) continue;
                    if (!mc_mine()) continue;
                    int seq[3] = {a, b, c};
                    if (depth > 2) mc_case("%s: %s / %s / %s", iname[i], ops[a].name, ops[b].name, ops[c].name);
                    else mc_case("%s: %s / %s", iname[i], ops[a].name, ops[b].name);
                    char path[300] = "";
                    explore(init[i], seq, depth, 0, path);
                }
            }
        }
    return 0;
}
