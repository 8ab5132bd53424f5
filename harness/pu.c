#define _GNU_SOURCE
#include "pu.h"
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <getopt.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <mbedtls/md.h>
#include <mbedtls/pk.h>
#include <mbedtls/entropy.h>
#include <mbedtls/ctr_drbg.h>

/* the format's CRC-32: reflected 0xEDB88320, initial value 0, no final inversion */
uint32_t pu_crc(uint32_t crc, const void *p, size_t n)
{
    const uint8_t *b = p;
    while (n--) {
        crc ^= *b++;
        for (int i = 0; i < 8; i++) crc = (crc >> 1) ^ (0xEDB88320u & -(crc & 1));
    }
    return crc;
}
uint32_t pu_id(const char *s) { return pu_crc(0, s, strlen(s)); }
uint32_t pu_tree_id(uint32_t id) { return pu_crc(id, "-hash-tree", 10); }

void pu_init(struct pu *p, int hk)
{
    memset(p, 0, sizeof *p);
    p->h.magic = 0x42504132;
    p->h.hash_kind = hk;
    p->h.signature_kind = BPAK_SIGN_PRIME256v1;
    p->h.alignment = 512;
}
void pu_free(struct pu *p) { free(p->data); memset(p, 0, sizeof *p); }
static void grow(struct pu *p, size_t n)
{
    if (p->len + n > p->cap) {
        p->cap = (p->len + n) * 2 + 4096;
        p->data = realloc(p->data, p->cap);
        if (!p->data) mc_die("oom");
    }
}
void pu_copy(struct pu *d, const struct pu *s)
{
    d->h = s->h;
    d->len = 0;
    grow(d, s->len ? s->len : 1);
    if (s->len) memcpy(d->data, s->data, s->len);
    d->len = s->len;
}
size_t pu_stored(const struct bpak_part_header *q) { return (q->flags & 2) ? q->transport_size : q->size + q->pad_bytes; }
static int nparts(const struct bpak_header *h) { int i = 0; while (i < 32 && h->parts[i].id) i++; return i; }
int pu_find(const struct bpak_header *h, uint32_t id) { for (int i = 0; i < 32; i++) if (h->parts[i].id == id) return i; return -1; }
size_t pu_offset(const struct bpak_header *h, int idx)
{
    size_t o = 4096;
    for (int i = 0; i < idx; i++) o += pu_stored(&h->parts[i]);
    return o;
}
static struct bpak_part_header *add(struct pu *p, uint32_t id, const void *d, size_t n, size_t total)
{
    int i = nparts(&p->h);
    if (i == 32) mc_die("pu: too many parts");
    struct bpak_part_header *q = &p->h.parts[i];
    q->id = id;
    uint64_t off = 4096;
    for (int k = 0; k < i; k++) off += p->h.parts[k].size + p->h.parts[k].pad_bytes;
    q->offset = off;
    grow(p, total);
    memcpy(p->data + p->len, d, n);
    memset(p->data + p->len + n, 0, total - n);
    p->len += total;
    return q;
}
struct bpak_part_header *pu_part(struct pu *p, uint32_t id, const void *d, size_t n, int flags)
{
    size_t pad = (512 - n % 512) % 512;
    struct bpak_part_header *q = add(p, id, d, n, n + pad);
    q->size = n;
    q->pad_bytes = pad;
    q->flags = flags;
    return q;
}
struct bpak_part_header *pu_part_t(struct pu *p, uint32_t id, const void *d, size_t n, uint64_t size, int pad, int flags)
{
    struct bpak_part_header *q = add(p, id, d, n, n);
    q->size = size;
    q->pad_bytes = pad;
    q->transport_size = n;
    q->flags = flags | 2;
    return q;
}
struct bpak_meta_header *pu_meta(struct pu *p, uint32_t id, uint32_t ref, const void *d, size_t n)
{
    size_t off = 0;
    for (int i = 0; i < 32; i++) {
        struct bpak_meta_header *m = &p->h.meta[i];
        if (!m->id) {
            if (off + n > 1920) mc_die("pu: metadata full");
            m->id = id;
            m->size = n;
            m->offset = off;
            m->part_id_ref = ref;
            memcpy(p->h.metadata + off, d, n);
            return m;
        }
        off = (off + m->size + 7) & ~(size_t)7;
    }
    mc_die("pu: too much metadata");
}
void pu_transport(struct pu *p, uint32_t part, const char *enc, const char *dec)
{
    uint8_t b[32] = {0};
    uint32_t v[2] = {pu_id(enc), pu_id(dec)};
    memcpy(b, v, 8);
    pu_meta(p, pu_id("bpak-transport"), part, b, 32);
}
void pu_uuid(struct pu *p, int variant)
{
    uint8_t u[16];
    for (int i = 0; i < 16; i++) u[i] = 0x10 * variant + i;
    pu_meta(p, pu_id("bpak-package"), 0, u, 16);
}
static mbedtls_md_type_t mdt(int k) { return k == 1 ? MBEDTLS_MD_SHA256 : k == 2 ? MBEDTLS_MD_SHA384 : MBEDTLS_MD_SHA512; }
size_t pu_digest(int k, const void *p, size_t n, uint8_t *out)
{
    const mbedtls_md_info_t *i = mbedtls_md_info_from_type(mdt(k));
    if (mbedtls_md(i, p, n, out)) mc_die("md");
    return mbedtls_md_get_size(i);
}
size_t pu_header_digest(const struct bpak_header *h, uint8_t *out)
{
    struct bpak_header t = *h;
    memset(t.signature, 0, sizeof t.signature);
    t.signature_sz = 0;
    return pu_digest(h->hash_kind, &t, sizeof t, out);
}
void pu_payload_digest(const struct bpak_header *h, const uint8_t *data, uint8_t *out)
{
    mbedtls_md_context_t c;
    mbedtls_md_init(&c);
    memset(out, 0, 64);
    if (mbedtls_md_setup(&c, mbedtls_md_info_from_type(mdt(h->hash_kind)), 0) || mbedtls_md_starts(&c)) mc_die("md");
    size_t o = 0;
    for (int i = 0; i < 32 && h->parts[i].id; i++) {
        size_t n = pu_stored(&h->parts[i]);
        if (!(h->parts[i].flags & 1)) mbedtls_md_update(&c, data + o, n);
        o += n;
    }
    mbedtls_md_finish(&c, out);
    mbedtls_md_free(&c);
}
void pu_rehash(struct pu *p)
{
    uint8_t d[64];
    pu_payload_digest(&p->h, p->data, d);
    memcpy(p->h.payload_hash, d, 64);
}
static int rng(void *u, unsigned char *b, size_t n)
{
    static uint32_t s = 12345;
    (void)u;
    for (size_t i = 0; i < n; i++) { s = s * 1664525u + 1013904223u; b[i] = s >> 24; }
    return 0;
}
void pu_sign(struct pu *p, const char *pem)
{
    mbedtls_pk_context k;
    uint8_t d[64];
    size_t dl, sl = 0;
    mbedtls_pk_init(&k);
    if (mbedtls_pk_parse_keyfile(&k, pem, NULL)) mc_die("pu_sign: key %s", pem);
    dl = pu_header_digest(&p->h, d);
    uint8_t sig[1024];
    if (mbedtls_pk_sign(&k, mdt(p->h.hash_kind), d, dl, sig, &sl, rng, NULL)) mc_die("pu_sign");
    memset(p->h.signature, 0, sizeof p->h.signature);
    memcpy(p->h.signature, sig, sl);
    p->h.signature_sz = sl;
    mbedtls_pk_free(&k);
}
bool pu_verify_sig(const struct bpak_header *h, const char *pub)
{
    mbedtls_pk_context k;
    uint8_t d[64];
    mbedtls_pk_init(&k);
    if (mbedtls_pk_parse_public_keyfile(&k, pub)) mc_die("pu_verify: key %s", pub);
    size_t dl = pu_header_digest(h, d);
    bool ok = h->signature_sz <= 512 && !mbedtls_pk_verify(&k, mdt(h->hash_kind), d, dl, h->signature, h->signature_sz);
    mbedtls_pk_free(&k);
    return ok;
}
void pu_save(const struct pu *p, const char *path)
{
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0 || write(fd, &p->h, 4096) != 4096 || (p->len && write(fd, p->data, p->len) != (ssize_t)p->len)) mc_die("pu_save %s: %s", path, strerror(errno));
    close(fd);
}
bool pu_load(struct pu *p, const char *path)
{
    size_t n;
    uint8_t *b = mc_read_file(path, &n);
    if (!b || n < 4096) { free(b); return false; }
    memcpy(&p->h, b, 4096);
    p->len = 0;
    grow(p, n - 4096 + 1);
    memcpy(p->data, b + 4096, n - 4096);
    p->len = n - 4096;
    free(b);
    return true;
}
const char *pu_key(const char *name)
{
    static char ring[8][256];
    static int k;
    char *o = ring[k++ & 7];
    snprintf(o, 256, "%s/keys/%s", VERIF_DIR, name);
    return o;
}
static void sh(const uint8_t *salt, size_t sl, const uint8_t *d, size_t n, uint8_t *out)
{
    uint8_t z[4096 + 64] = {0};
    memcpy(z, salt, sl);
    memcpy(z + sl, d, n);
    pu_digest(1, z, sl + 4096, out);
}
uint8_t *pu_merkle(const uint8_t *d, size_t n, const uint8_t *salt, size_t sl, size_t *tl, uint8_t root[32])
{
    uint8_t *lv[8];
    size_t ln[8];
    int L = 0;
    const uint8_t *cur = d;
    size_t blocks = (n + 4095) / 4096, left = n;
    do {
        size_t len = (blocks * 32 + 4095) / 4096 * 4096;
        lv[L] = calloc(1, len);
        for (size_t b = 0; b < blocks; b++) {
            size_t c = left < 4096 ? left : 4096;
            sh(salt, sl, cur + b * 4096, c, lv[L] + 32 * b);
            left -= c;
        }
        ln[L] = len;
        cur = lv[L];
        left = len;
        blocks = len / 4096;
        L++;
    } while (blocks > 1);
    if (n == 4096) memcpy(root, lv[0], 32);
    else sh(salt, sl, lv[L - 1], 4096, root);
    size_t tot = 0;
    for (int i = 0; i < L; i++) tot += ln[i];
    uint8_t *t = malloc(tot);
    size_t o = 0;
    for (int i = L - 1; i >= 0; i--) { memcpy(t + o, lv[i], ln[i]); o += ln[i]; free(lv[i]); }
    *tl = tot;
    return t;
}
void pu_merkle_parts(struct pu *p, const char *name, const void *d, size_t n, int flags, uint8_t sb)
{
    uint8_t salt[32], root[32];
    size_t tl;
    for (int i = 0; i < 32; i++) salt[i] = sb + 3 * i;
    pu_part(p, pu_id(name), d, n, flags);
    uint8_t *t = pu_merkle(d, n, salt, 32, &tl, root);
    pu_part(p, pu_tree_id(pu_id(name)), t, tl, flags);
    pu_meta(p, pu_id("merkle-salt"), pu_id(name), salt, 32);
    pu_meta(p, pu_id("merkle-root-hash"), pu_id(name), root, 32);
    free(t);
}
void pu_fill(uint8_t *b, size_t n, uint32_t s)
{
    s = s * 2654435761u + 1;
    for (size_t i = 0; i < n; i++) { s = s * 1664525u + 1013904223u; b[i] = s >> 24; }
}
unsigned long pu_fsize = 1ul << 30;
static bool inproc;
bool pu_inproc;
static void child_setup(const char *out)
{
    int fd = open(out && *out ? out : "/dev/null", O_CREAT | O_TRUNC | O_WRONLY, 0644);
    int nul = open("/dev/null", O_RDWR);
    dup2(fd, 1);
    dup2(nul, 0);
    if (!getenv("MC_TOOLERR")) {
        char ep[600];
        snprintf(ep, sizeof ep, "%s/tool.err", mc_scratch);
        int e = open(ep, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(e, 2);
    }
    if (chdir(mc_scratch)) _exit(91);
    struct rlimit rl = {pu_fsize, pu_fsize};
    setrlimit(RLIMIT_FSIZE, &rl); /* a runaway writer must not fill the disk */
    signal(SIGPROF, SIG_DFL);
}
static void child_timer(void)
{
    struct itimerval t = {{0, 0}, {20, 0}};
    setitimer(ITIMER_PROF, &t, NULL);
}
static void child_wait(pid_t pid, const char *cmd, int *st)
{
    while (waitpid(pid, st, 0) < 0) if (errno != EINTR) mc_die("waitpid");
    if (WIFEXITED(*st) && WEXITSTATUS(*st) != 77) return;
    size_t l = 0;
    uint8_t *e = mc_read_file(mc_path("tool.err"), &l);
    if (e) {
        fwrite(e, 1, l, stderr);
        if (l > 1500) l = 1500;
        e[l] = 0;
    }
    if (WIFSIGNALED(*st) && (WTERMSIG(*st) == SIGPROF || WTERMSIG(*st) == SIGXFSZ))
        mc_fail("command '%s' does not terminate (signal %d)", cmd, WTERMSIG(*st));
    mc_fail("command '%s' crashed (status 0x%x): %s", cmd, *st, e ? (char *)e : "");
}
static char *batch_cmd;
static void cmdline(char *cmd, char **argv)
{
    *cmd = 0;
    for (int i = 0; argv[i]; i++) { strncat(cmd, argv[i], 100); strncat(cmd, " ", 2); if (strlen(cmd) > 380) break; }
}
int toolv(const char *out, char **argv)
{
    if (!bpak_tool_main) mc_die("tool not linked");
    int n = 0;
    while (argv[n]) n++;
    mc_trans(1);
    if (inproc) {
        if (out && *out) mc_die("batched commands have no output file");
        cmdline(batch_cmd, argv);
        child_timer();
        optind = 0;
        int rc = bpak_tool_main(n, argv) & 0xff;
        fflush(stdout);
        return rc;
    }
    if (pu_inproc) {
        fflush(stdout);
        fflush(stderr);
        int o = dup(1), e = dup(2), fd = open(out && *out ? out : "/dev/null", O_CREAT | O_TRUNC | O_WRONLY, 0644), nul = open("/dev/null", O_WRONLY);
        if (o < 0 || e < 0 || fd < 0 || nul < 0) mc_die("descriptors");
        dup2(fd, 1);
        if (!getenv("MC_TOOLERR") && !getenv("MC_SANERR")) dup2(nul, 2);
        optind = 0;
        int rc = bpak_tool_main(n, argv) & 0xff;
        fflush(stdout);
        fflush(stderr);
        dup2(o, 1);
        dup2(e, 2);
        close(o); close(e); close(fd); close(nul);
        return rc;
    }
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) mc_die("fork");
    if (!pid) {
        child_setup(out);
        child_timer();
        optind = 0; /* as in a new process */
        exit(bpak_tool_main(n, argv));
    }
    int st;
    char cmd[512];
    cmdline(cmd, argv);
    child_wait(pid, cmd, &st);
    return WEXITSTATUS(st);
}
void tool_batch(void (*fn)(int *), int *results, int max)
{
    static int *shared;
    if (!shared) {
        shared = mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (shared == MAP_FAILED) mc_die("mmap");
        batch_cmd = (char *)shared + 60000;
    }
    fflush(NULL);
    memset(shared, 0, max * sizeof *shared);
    strcpy(batch_cmd, "(none)");
    pid_t pid = fork();
    if (pid < 0) mc_die("fork");
    if (!pid) {
        child_setup(NULL);
        inproc = true;
        fn(shared);
        _exit(0);
    }
    int st;
    child_wait(pid, batch_cmd, &st);
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st)); /* a violation reported by the child */
    memcpy(results, shared, max * sizeof *shared);
}
int tool(const char *out, const char *a0, ...)
{
    char *argv[40];
    int n = 0;
    va_list ap;
    argv[n++] = "bpak";
    argv[n++] = (char *)a0;
    va_start(ap, a0);
    while ((argv[n] = va_arg(ap, char *)) && n < 38) n++;
    va_end(ap);
    argv[n] = NULL;
    return toolv(out, argv);
}

/* the text of an entry, "" when there is none */
void pu_meta_text(const struct bpak_header *h, const struct bpak_meta_header *m, char *o)
{
    const uint8_t *d = h->metadata + m->offset;
    uint32_t a = 0, b = 0;
    uint64_t q = 0;
    size_t n = m->size;
    *o = 0;
    if (m->id == pu_id("bpak-key-id") || m->id == pu_id("bpak-key-store")) {
        if (n >= 4) { memcpy(&a, d, 4); sprintf(o, "%x", a); }
    } else if (m->id == pu_id("keystore-provider-id")) {
        if (n >= 4) { memcpy(&a, d, 4); sprintf(o, "0x%x", a); }
    } else if (m->id == pu_id("bpak-package")) {
        if (n >= 16) for (int i = 0, k = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) o[k++] = '-'; k += sprintf(o + k, "%02x", d[i]); }
    } else if (m->id == pu_id("bpak-transport")) {
        if (n >= 8) { memcpy(&a, d, 4); memcpy(&b, d + 4, 4); sprintf(o, "Encode: %08x, Decode: %08x", a, b); }
    } else if (m->id == pu_id("merkle-salt") || m->id == pu_id("merkle-root-hash")) {
        if (n >= 32) for (int i = 0; i < 32; i++) sprintf(o + 2 * i, "%02x", d[i]);
    } else if (m->id == pu_id("pb-load-addr")) {
        if (n >= 8) { memcpy(&q, d, 8); sprintf(o, "Entry: 0x%08llX", (unsigned long long)q); }
    } else if (m->id == pu_id("bpak-version")) {
        size_t k = 0;
        while (k < n && d[k]) k++;
        if (k < 128) { memcpy(o, d, k); o[k] = 0; }
    }
}
const char *pu_meta_name(uint32_t id)
{
    static const char *N[] = {"bpak-package", "bpak-transport", "merkle-salt", "merkle-root-hash", "pb-load-addr", "bpak-version", "keystore-provider-id"};
    for (int i = 0; i < 7; i++) if (pu_id(N[i]) == id) return N[i];
    return "";
}
