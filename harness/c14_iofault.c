/* C14: every file operation behind every command fails, one at a time (and in pairs). stdio streams
 * of the code under test are backed by cookie streams whose open / read / write / seek / close
 * and the truncate / stat calls are the fault points.
 *
 * -DC14_HEAP (C21): the same faults, also in operations that are refused; what is compared is the
 * memory allocated before and after. */
#define _GNU_SOURCE
#include "mc.h"
#include "pu.h"
#include "scen.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>

/* development: list every violation instead of stopping at the first */
#define BAD(...) do { if (getenv("MC_SURVEY")) { printf("SURVEY %s: ", cur); printf(__VA_ARGS__); puts(""); fflush(stdout); return; } mc_fail(__VA_ARGS__); } while (0)
static char cur[600];
/* ---- fault points ---- */
enum { K_OPEN, K_READ, K_WRITE, K_SEEK, K_CLOSE, K_TRUNC, K_STAT, K_MAP, NKIND };
static const char *on[] = {"open", "read", "write", "seek", "close", "truncate", "stat", "map"};
enum { M_ONCE, M_STICKY, M_PART, M_EOF, M_CUT, M_CUT1, M_CUTB, NM };
static const char *mn[] = {"fails once", "fails from here on", "transfers half, then fails from here on", "ends early", "ends in the middle of it", "ends one byte early", "ends after one byte of it"};
struct fault { long at; int mode; };
static struct fault F[2];
static int nf, fired, opened;
static bool armed;
static long opno;
static int sticky[NKIND]; /* operations of this kind fail */
struct cookie { int fd, used; off_t pos, last; size_t lastn; bool wr, out, wrote, fixed; FILE *fp; char name[40]; };
static struct cookie ck[32];
static off_t eof_at[32];
#define MAXOPS 6000
static struct { uint8_t kind, eofok; size_t len; off_t pos; char name[24]; } ops[MAXOPS];
static bool rec;
static char obuf[1 << 17]; /* standard output of the run */
static size_t olen;

/* -1 no fault, otherwise mode */
static int point(int kind, struct cookie *c, size_t len)
{
    long k = opno++;
    if (rec) {
        if (k >= MAXOPS) mc_die("too many operations");
        ops[k].kind = kind; ops[k].len = len; ops[k].pos = c ? c->pos : 0;
        ops[k].eofok = c && kind == K_READ && !c->fixed ? 1 + (c->pos > 0) : 0;
        snprintf(ops[k].name, sizeof ops[k].name, "%s", c ? c->name : "");
    }
    if (k > 200000) mc_fail("the operation does not terminate (200000 file operations)");
    for (int i = 0; i < nf; i++)
        if (F[i].at == k) {
            fired++;
            if (F[i].mode == M_STICKY || F[i].mode == M_PART) sticky[kind] = 1;
            return F[i].mode;
        }
    return sticky[kind] ? M_ONCE : -1;
}
static ssize_t c_read(void *u, char *b, size_t n)
{
    struct cookie *c = u;
    int m = point(K_READ, c, n), i = c - ck;
    if (m == M_EOF) eof_at[i] = c->pos;
    else if (m >= 0 && m < M_CUT) { errno = EIO; return -1; }
    if (eof_at[i] >= 0 && c->pos >= eof_at[i]) return 0;
    ssize_t r = pread(c->fd, b, n, c->pos);
    if (m >= M_CUT && r > 0) eof_at[i] = c->pos + (m == M_CUT ? r / 2 : m == M_CUT1 ? r - 1 : 1);
    if (eof_at[i] >= 0 && c->pos + r > eof_at[i]) r = eof_at[i] - c->pos;
    if (r > 0) c->pos += r;
    return r;
}
static ssize_t c_write(void *u, const char *b, size_t n)
{
    struct cookie *c = u;
    int m = point(K_WRITE, c, n);
    size_t w = m < 0 ? n : m == M_PART ? n / 2 : 0;
    if (c->out) {
        if (olen + w > sizeof obuf) mc_die("output too long");
        memcpy(obuf + olen, b, w);
        olen += w;
    } else {
        if (w && syscall(SYS_pwrite64, c->fd, b, w, c->pos) != (ssize_t)w) mc_die("pwrite");
        c->last = c->pos; c->lastn = w;
        c->pos += w;
    }
    c->wrote = true;
    if (m >= 0) errno = ENOSPC;
    return w;
}
static int c_seek(void *u, off64_t *o, int wh)
{
    struct cookie *c = u;
    if (c->out) { errno = ESPIPE; return -1; }
    if (point(K_SEEK, c, 0) >= 0) { errno = EIO; return -1; }
    struct stat st;
    off_t base = wh == SEEK_SET ? 0 : c->pos;
    if (wh == SEEK_END) { fstat(c->fd, &st); base = st.st_size; }
    if (base + *o < 0) { errno = EINVAL; return -1; }
    *o = c->pos = base + *o;
    return 0;
}
static int c_close(void *u)
{
    struct cookie *c = u;
    int m = point(K_CLOSE, c, 0);
    if (m >= 0 && c->wrote && !c->out && c->lastn) { /* a delayed write error: the last write is lost */
        uint8_t z[512] = {0};
        for (size_t i = 0; i < c->lastn; i += sizeof z)
            if (syscall(SYS_pwrite64, c->fd, z, c->lastn - i < sizeof z ? c->lastn - i : sizeof z, c->last + i) < 0) mc_die("pwrite");
    }
    if (!c->out) { close(c->fd); opened--; }
    c->used = 0;
    c->fp = NULL;
    if (m >= 0) { errno = EIO; return -1; }
    return 0;
}
static FILE *cookie(int fd, const char *mode, const char *name, bool out)
{
    static const cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
    int i;
    for (i = 0; i < 32 && ck[i].used; i++) ;
    if (i == 32) mc_die("too many open files");
    memset(&ck[i], 0, sizeof ck[i]);
    ck[i].fd = fd; ck[i].used = 1; ck[i].out = out;
    eof_at[i] = -1;
    snprintf(ck[i].name, sizeof ck[i].name, "%s", name);
    ck[i].fixed = strstr(name, ".in") || strstr(name, ".sig");
    ck[i].fp = fopencookie(&ck[i], mode, io);
    if (!ck[i].fp) mc_die("fopencookie");
    return ck[i].fp;
}
static FILE *(*real_fopen)(const char *, const char *);
FILE *fopen(const char *p, const char *mode)
{
    if (!real_fopen) real_fopen = dlsym(RTLD_NEXT, "fopen");
    if (!armed) return real_fopen(p, mode);
    if (point(K_OPEN, NULL, 0) >= 0) { errno = EACCES; return NULL; }
    int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (mode[0] != 'r') fl |= O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = open(p, fl, 0666);
    if (fd < 0) return NULL;
    opened++;
    return cookie(fd, mode, strrchr(p, '/') ? strrchr(p, '/') + 1 : p, false);
}
FILE *fopen64(const char *p, const char *mode) { return fopen(p, mode); }
static int findfd(FILE *f)
{
    for (int i = 0; i < 32; i++) if (ck[i].used && ck[i].fp == f) return ck[i].fd;
    return -2;
}
static int (*real_fileno)(FILE *);
int fileno(FILE *f)
{
    if (!real_fileno) real_fileno = dlsym(RTLD_NEXT, "fileno");
    int fd = armed ? findfd(f) : -2;
    return fd == -2 ? real_fileno(f) : fd;
}
static int (*real_ftruncate)(int, off_t);
int ftruncate(int fd, off_t n)
{
    if (!real_ftruncate) real_ftruncate = dlsym(RTLD_NEXT, "ftruncate");
    if (armed && point(K_TRUNC, NULL, 0) >= 0) { errno = EIO; return -1; }
    return real_ftruncate(fd, n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
static int (*real_stat)(const char *, struct stat *);
int stat(const char *p, struct stat *st)
{
    if (!real_stat) real_stat = dlsym(RTLD_NEXT, "stat");
    if (armed && point(K_STAT, NULL, 0) >= 0) { errno = EIO; return -1; }
    return real_stat(p, st);
}

/* descriptors of the streams used directly */
static struct cookie *byfd(int fd)
{
    if (armed) for (int i = 0; i < 32; i++) if (ck[i].used && !ck[i].out && ck[i].fd == fd) return &ck[i];
    return NULL;
}
static ssize_t raw_write(int fd, const void *b, size_t n, off_t at, bool p)
{
    struct cookie *c = byfd(fd);
    int m = -1;
    if (c) {
        c->pos = at;
        m = point(K_WRITE, c, n);
        c->wrote = true; c->last = at; c->lastn = m < 0 ? n : 0;
    }
    if (m == M_PART && n > 1) n /= 2;
    else if (m >= 0) { errno = ENOSPC; return -1; }
    return p ? syscall(SYS_pwrite64, fd, b, n, at) : syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return raw_write(fd, b, n, armed ? syscall(SYS_lseek, fd, 0, SEEK_CUR) : 0, false); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) { return raw_write(fd, b, n, at, true); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t at) { return raw_write(fd, b, n, at, true); }
off_t lseek(int fd, off_t o, int w)
{
    struct cookie *c = byfd(fd);
    if (c && point(K_SEEK, c, 0) >= 0) { errno = EIO; return -1; }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
    struct cookie *c = fd >= 0 ? byfd(fd) : NULL;
    if (c && point(K_MAP, c, n) >= 0) { errno = ENOMEM; return (void *)-1; }
    return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}

/* the tree salt must be the same in every run */
void srand(unsigned s) { (void)s; }

static struct { uint8_t *d; size_t n; } refA, refO;
#ifdef C14_HEAP
size_t __sanitizer_get_current_allocated_bytes(void);
static long heap_change;
#define HEAP() (long)__sanitizer_get_current_allocated_bytes()
#else
static long heap_change;
#define HEAP() 0L
#endif
static int run_sc(const struct sc *s)
{
    sc_restore(s);
    srandom(1);
    memset(sticky, 0, sizeof sticky);
    opno = 0; fired = 0; opened = 0; olen = 0;
    memset(ck, 0, sizeof ck);
    FILE *so = stdout, *se = stderr;
    static FILE *null;
    if (!null) { static char nb[4096]; null = fopen("/dev/null", "w"); setvbuf(null, nb, _IOFBF, sizeof nb); }
    if (!getenv("MC_TOOLERR")) stderr = null;
    long before = HEAP();
    stdout = cookie(-1, "w", "stdout", true);
    int rc;
    armed = true;
    rc = sc_call(s);
    if (s->fn && fflush(stdout) && !rc) rc = -BPAK_WRITE_ERROR; /* the caller's own output */
    armed = false;
    FILE *sc = stdout;
    stdout = so;
    stderr = se;
    nf = 0;
    memset(sticky, 0, sizeof sticky);
    fclose(sc);
    heap_change = HEAP() - before;
    mc_trans(opno);
    return rc;
}
static void describe(char *t, size_t n, int i)
{
    int k = ops[F[i].at].kind;
    snprintf(t, n, "%s of %s at %lld (%zu bytes, operation %ld) %s", on[k], ops[F[i].at].name, (long long)ops[F[i].at].pos, ops[F[i].at].len, F[i].at, mn[F[i].mode]);
}
static void check(const struct sc *s)
{
    char w[300];
    struct fault f[2] = {F[0], F[1]};
    int k = nf;
    int rc = run_sc(s);
    F[0] = f[0]; F[1] = f[1];
    mc_eval(1);
    mc_distinct(mc_hash(s->name, strlen(s->name), rc));
    if (opened) BAD("%d file(s) left open", opened);
#ifdef C14_HEAP
    if (heap_change) BAD("%ld bytes are not released (exit %d)", heap_change, rc);
    return;
#endif
    if (rc) { mc_note("reported as errors", 1); return; }
    mc_note("successful with the complete result", 1);
    (void)k;
    sc_watch(s, w);
    size_t n;
    uint8_t *d = mc_read_file(w, &n);
    const char *why;
    if (!d || !sc_result_ok(s, d, n, refA.d, refA.n, &why)) BAD("success is reported, but %s is not the intended result (%s)", strrchr(w, '/') + 1, d ? why : "missing");
    free(d);
    if (s->flags & C_OUT) if (olen != refO.n || memcmp(obuf, refO.d, olen)) BAD("success is reported, but the output is not the intended one (%zu of %zu bytes)", olen, refO.n);
}
static bool possible(long k, int m)
{
    int kind = ops[k].kind;
    if (m == M_PART) return kind == K_WRITE && ops[k].len > 1;
    if (m == M_EOF) return kind == K_READ && ops[k].eofok == 2;
    if (m >= M_CUT) return kind == K_READ && ops[k].eofok;
    return true;
}
static void scenario(const struct sc *s)
{
    char w[300], t1[200], t2[200];
    nf = 0;
    rec = true;
    int rc = run_sc(s);
    rec = false;
    long n = opno;
#ifdef C14_HEAP
    nf = 0;
    snprintf(cur, sizeof cur, "%s", s->name);
    mc_case("%s: no fault", cur);
    int again = run_sc(s); /* the first run sets up what is kept */
    if (again != rc || opened || heap_change) BAD("%ld bytes are not released without a fault (exit %d)", heap_change, again);
#else
    MC_CHECK(rc == 0 || getenv("MC_SKIP"), "%s fails without a fault (%d)", s->name, rc);
    MC_CHECK(opened == 0, "%s leaves %d file(s) open without a fault", s->name, opened);
    sc_watch(s, w);
    free(refA.d); free(refO.d);
    refA.d = mc_read_file(w, &refA.n);
    if (!refA.d) mc_die("no reference result for %s", s->name);
    refO.d = malloc(olen + 1); memcpy(refO.d, obuf, olen); refO.n = olen;
#endif
    if (getenv("MC_OPS")) for (long k = 0; k < n; k++) printf("OP %s %ld %s %s pos %lld len %zu eofok %d\n", s->name, k, on[ops[k].kind], ops[k].name, (long long)ops[k].pos, ops[k].len, ops[k].eofok);
    mc_note("fault points", n);
    for (long k = 0; k < n; k++)
        for (int m = 0; m < NM; m++) {
            if (!possible(k, m) || !mc_mine()) continue;
            nf = 1; F[0].at = k; F[0].mode = m;
            describe(t1, sizeof t1, 0);
            snprintf(cur, sizeof cur, "%s: %s", s->name, t1);
            mc_case("%s", cur);
            mc_state(mc_hash(s->name, strlen(s->name), k * 8 + m));
            check(s);
        }
#ifdef C14_HEAP
    long cap = mc_thorough ? 60 : 12;
    (void)w;
#else
    long cap = mc_thorough ? 400 : 24;
#endif
    for (long k = 0; k < n && k < cap; k++)
        for (long j = k + 1; j < n && j < cap; j++) {
            if (!mc_mine()) continue;
            for (int m = 0; m < NM; m++)
                for (int l = 0; l < NM; l++) {
                    if (!possible(k, m) || !possible(j, l) || (m == M_STICKY && ops[k].kind == ops[j].kind) || m == M_PART) continue;
                    nf = 2; F[0].at = k; F[0].mode = m; F[1].at = j; F[1].mode = l;
                    describe(t1, sizeof t1, 0); describe(t2, sizeof t2, 1);
                    snprintf(cur, sizeof cur, "%s: %s; %s", s->name, t1, t2);
                    mc_case("%s", cur);
                    check(s);
                }
        }
}
int mc_run(void)
{
    int ns;
    const struct sc *S = sc_list(&ns);
    sc_setup();
    for (int i = 0; i < ns; i++) {
#ifdef C14_HEAP
        if (S[i].flags & C_SLOW) continue;
#else
        if (S[i].flags & (C_FAIL | C_SLOW)) continue;
#endif
        if (getenv("MC_SC") && !strstr(S[i].name, getenv("MC_SC"))) continue;
        scenario(&S[i]);
    }
    return 0;
}
