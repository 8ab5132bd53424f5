/* C30: every spelling of a command line means the same.
 *
 * For every command of a list: every order of its options and file names, every spelling of
 * every option (long, long with =, short, short with the value attached, grouped flags), an
 * end-of-options mark, and any verbosity give the exit status, archive, output file and (but
 * for -v) standard output of the plain command. Command lines that are wrong change nothing. */
#include "mc.h"
#include "pu.h"
#include "scen.h"
#include <unistd.h>
#include <sys/stat.h>

void srand(unsigned s) { (void)s; } /* the salt of a new tree: the same in every run */

struct op { const char *l; char s; const char *v; };
enum { DATA = 1, SIGN = 2, NOFILE = 4, FAILS = 8, EMPTY = 16 };
static const struct cmd { const char *act; struct op o[5]; const char *pos[3]; int fl; } C[] = {
    {"create", {{"force", 'Y', 0}}, {"A"}},
    {"create", {{0}}, {"A"}, NOFILE},
    {"create", {{"hash-kind", 'H', "sha512"}, {"signature-kind", 'S', "rsa4096"}, {"force", 'Y', 0}}, {"A"}},
    {"create", {{"hash-kind", 'H', "md5"}, {"force", 'Y', 0}}, {"A"}, FAILS},
    {"add", {{"part", 'p', "new"}, {"from-file", 'f', "$D"}}, {"A"}},
    {"add", {{"part", 'p', "new"}, {"from-file", 'f', "$D"}, {"set-flag", 'F', "dont-hash"}}, {"A"}},
    {"add", {{"part", 'p', "new"}, {"from-file", 'f', "$P"}, {"encoder", 'e', "key"}}, {"A"}},
    {"add", {{"part", 'p', "new"}, {"from-file", 'f', "$M"}, {"encoder", 'e', "merkle"}, {"set-flag", 'F', "dont-hash"}}, {"A"}},
    {"add", {{"meta", 'm', "mm"}, {"from-string", 's', "a value"}}, {"A"}},
    {"add", {{"meta", 'm', "mm"}, {"from-string", 's', "0x1234"}, {"encoder", 'e', "integer"}, {"part-ref", 'r', "data"}}, {"A"}},
    {"add", {{"meta", 'm', "mm"}, {"from-string", 's', "11223344-5566-7788-99aa-bbccddeeff00"}, {"encoder", 'e', "uuid"}}, {"A"}},
    {"add", {{"meta", 'm', "mm"}, {"from-file", 'f', "$D"}}, {"A"}},
    {"add", {{"part", 'p', "data"}, {"from-file", 'f', "$D"}}, {"A"}, FAILS},
    {"add", {{"meta", 'm', "mm"}, {"from-string", 's', "-v"}}, {"A"}},
    {"add", {{"meta", 'm', "mm"}, {"from-string", 's', "--part"}}, {"A"}},
    {"add", {{"meta", 'm', "mm"}, {"from-string", 's', ""}}, {"A"}, EMPTY},
    {"delete", {{"part", 'p', "data"}}, {"A"}},
    {"delete", {{"part", 'p', "data"}, {"keep-meta", 'k', 0}}, {"A"}},
    {"delete", {{"all", 'a', 0}}, {"A"}},
    {"delete", {{"all", 'a', 0}, {"keep-meta", 'k', 0}}, {"A"}},
    {"delete", {{"part", 'p', "none"}}, {"A"}, FAILS},
    {"extract", {{"part", 'p', "data"}, {"output", 'o', "$O"}}, {"A"}},
    {"extract", {{"part", 'p', "data"}}, {"A"}, DATA},
    {"extract", {{"meta", 'm', "text"}}, {"A"}, DATA},
    {"extract", {{"meta", 'm', "text"}, {"part-ref", 'r', "data"}, {"output", 'o', "$O"}}, {"A"}},
    {"extract", {{"meta", 'm', "text"}, {"part-ref", 'r', "none"}, {"output", 'o', "$O"}}, {"A"}, FAILS},
    {"sign", {{"key", 'k', "$K"}}, {"A"}, SIGN},
    {"sign", {{"signature", 'f', "$S"}}, {"A"}},
    {"verify", {{"key", 'k', "$P"}}, {"A"}},
    {"verify", {{"key", 'k', "$Q"}}, {"A"}, FAILS},
    {"verify", {{"keystore", 'K', "$T"}}, {"A"}},
    {"show", {{0}}, {"A"}},
    {"show", {{"hash", 'H', 0}}, {"A"}, DATA},
    {"show", {{"binary-hash", 'B', 0}}, {"A"}, DATA},
    {"show", {{"part", 'p', "data"}}, {"A"}, DATA},
    {"show", {{"part-hash", 'P', "data"}}, {"A"}, DATA},
    {"show", {{"meta", 'm', "text"}}, {"A"}, DATA},
    {"show", {{"part", 'p', "none"}}, {"A"}, FAILS},
    {"set", {{"meta", 'm', "text"}, {"from-string", 's', "world"}}, {"A"}},
    {"set", {{"meta", 'm', "text"}, {"from-string", 's', "a much longer value than before"}}, {"A"}},
    {"set", {{"meta", 'm', "num"}, {"from-string", 's', "77"}, {"encoder", 'e', "integer"}}, {"A"}},
    {"set", {{"key-id", 'k', "kid"}, {"keystore-id", 'i', "0x1234"}}, {"A"}},
    {"set", {{"meta", 'm', "none"}, {"from-string", 's', "world"}}, {"A"}, FAILS},
    {"transport", {{"add", 'a', 0}, {"part-ref", 'r', "data"}, {"encoder", 'e', "bsdiff"}, {"decoder", 'd', "bspatch"}}, {"A"}},
    {"transport", {{"encode", 'E', 0}, {"origin", 'O', "$G"}, {"output", 'o', "$O"}}, {"B"}},
    {"transport", {{"decode", 'D', 0}, {"origin", 'O', "$G"}, {"output", 'o', "$O"}}, {"L"}},
    {"transport", {{"decode", 'D', 0}, {"origin", 'O', "$M"}, {"output", 'o', "$O"}}, {"L"}, FAILS},
    {"generate", {{"name", 'n', "x"}}, {"keystore", "T"}, DATA},
    {"generate", {{"name", 'n', "x"}, {"decorate", 'd', 0}}, {"keystore", "T"}, DATA},
    {"generate", {{0}}, {"id", "abc"}, DATA},
    {"compare", {{0}}, {"A", "B"}},
    {"compare", {{0}}, {"A", "A"}},
};
#define NC ((int)(sizeof C / sizeof *C))
static struct { char n; char p[300]; uint8_t *d; size_t len; } FL[12];
static int nfl;
static char OUT[300], STD[300];
static char *path(char c)
{
    if (c == 'O') return OUT;
    for (int i = 0; i < nfl; i++) if (FL[i].n == c) return FL[i].p;
    mc_die("no file %c", c);
}
static const char *val(const char *v)
{
    if (v[0] != '$') return v;
    if (v[1] == 'K') return pu_key("p256-a.pem");
    if (v[1] == 'P') return pu_key("p256-a.pub.pem");
    if (v[1] == 'Q') return pu_key("p256-b.pub.pem");
    return path(v[1]);
}
static void keep(char n)
{
    FL[nfl].n = n;
    snprintf(FL[nfl].p, 300, "%s", mc_path((char[]){n, '1', 0}));
    FL[nfl].d = mc_read_file(FL[nfl].p, &FL[nfl].len);
    if (!FL[nfl].d) mc_die("no file %c", n);
    nfl++;
}

/* ---- running ---- */
static char *av[40], store[40][400];
static int an;
static void arg(const char *a) { snprintf(store[an], 400, "%s", a); av[an] = store[an]; an++; }
static void start(const char *act) { an = 0; arg("bpak"); arg(act); }
struct res { int rc; uint8_t *a, *o, *s; size_t na, no, ns; };
static const struct cmd *now;
static void restore(void)
{
    static bool once;
    for (int i = 0; i < nfl; i++) {
        if (once && FL[i].n != 'A') continue;
        if (FL[i].n == 'A' && (now->fl & NOFILE)) { unlink(FL[i].p); continue; }
        mc_write_file(FL[i].p, FL[i].d, FL[i].len);
    }
    once = true;
    mc_write_file(OUT, "before", 6);
    mc_write_file(STD, "?", 1);
}
static struct res run(bool fork)
{
    struct res r = {0};
    restore();
    srandom(1);
    av[an] = NULL;
    pu_inproc = !fork;
    r.rc = toolv(STD, av);
    pu_inproc = true;
    r.a = mc_read_file(path('A'), &r.na);
    r.o = mc_read_file(OUT, &r.no);
    r.s = mc_read_file(STD, &r.ns);
    mc_trans(1);
    for (int i = 0; i < nfl; i++) { /* nothing else changes */
        if (FL[i].n == 'A') continue;
        size_t n;
        uint8_t *d = mc_read_file(FL[i].p, &n);
        MC_CHECK(d && n == FL[i].len && !memcmp(d, FL[i].d, n), "file %c is changed", FL[i].n);
        free(d);
    }
    return r;
}
static void drop(struct res *r) { free(r->a); free(r->o); free(r->s); }
static char *words(void)
{
    static char w[2000];
    char *p = w;
    for (int i = 1; i < an; i++) {
        const char *q = strrchr(av[i], '/');
        int n = q ? (int)(strcspn(av[i], "/")) : 0;
        p += snprintf(p, 200, " %.*s%s", n, av[i], q ? q : av[i]);
    }
    return w;
}
static bool same(const uint8_t *a, size_t n, const uint8_t *b, size_t m) { return !a == !b && n == m && !memcmp(a, b, n); }
static struct res want;
enum { PLAIN, VERBOSE };
static void compare(struct res *r, int how)
{
    MC_CHECK(r->rc == want.rc, "exit status %d instead of %d", r->rc, want.rc);
    if (now->fl & SIGN) {
        struct bpak_header h, w;
        MC_CHECK(r->na == want.na && r->na > sizeof h, "the archive has another size");
        memcpy(&h, r->a, sizeof h); memcpy(&w, want.a, sizeof w);
        MC_CHECK(pu_verify_sig(&h, pu_key("p256-a.pub.pem")), "the signature is not valid");
        memset(h.signature, 0, 514); memset(w.signature, 0, 514);
        MC_CHECK(!memcmp(&h, &w, sizeof h) && !memcmp(r->a + sizeof h, want.a + sizeof h, r->na - sizeof h), "the archive is another");
    } else
        MC_CHECK(same(r->a, r->na, want.a, want.na), "the archive is another");
    MC_CHECK(same(r->o, r->no, want.o, want.no), "the output file is another");
    if (how == PLAIN || (now->fl & DATA)) MC_CHECK(same(r->s, r->ns, want.s, want.ns), "the standard output is another (%zu bytes, not %zu)", r->ns, want.ns);
    mc_eval(1);
}
static void add_opt(const struct op *o, int sp)
{
    char t[500];
    if (!o->v) {
        snprintf(t, sizeof t, sp < 2 ? "--%s" : "-%c", o->l, 0);
        if (sp >= 2) snprintf(t, sizeof t, "-%c", o->s);
        arg(t);
        return;
    }
    const char *v = val(o->v);
    if (sp == 0) { snprintf(t, sizeof t, "--%s", o->l); arg(t); arg(v); }
    else if (sp == 1) { snprintf(t, sizeof t, "--%s=%s", o->l, v); arg(t); }
    else if (sp == 2) { snprintf(t, sizeof t, "-%c", o->s); arg(t); arg(v); }
    else { snprintf(t, sizeof t, "-%c%s", o->s, v); arg(t); }
}
static int count(const struct cmd *c) { int n = 0; while (n < 5 && c->o[n].l) n++; return n; }
static int npos(const struct cmd *c) { int n = 0; while (n < 3 && c->pos[n]) n++; return n; }
static void add_pos(const struct cmd *c, int i)
{
    const char *p = c->pos[i];
    arg(p[1] ? p : path(p[0]));
}
/* unit u: 0..n-1 options, n.. positional arguments; insertion of extra words before unit `at` */
static void build(const struct cmd *c, const int *ord, int n, const int *sp, int at, const char *const *extra)
{
    int no = count(c);
    start(c->act);
    for (int i = 0; i <= n; i++) {
        if (extra && i == at) for (int k = 0; extra[k]; k++) arg(extra[k]);
        if (i == n) break;
        if (ord[i] < no) add_opt(&c->o[ord[i]], sp ? sp[ord[i]] : 0);
        else add_pos(c, ord[i] - no);
    }
}
static void check(int how, const char *what)
{
    mc_case("bpak%s (%s)", words(), what);
    mc_state(mc_hash(words(), strlen(words()), 1));
    struct res r = run(how == VERBOSE);
    compare(&r, how);
    mc_distinct(mc_hash(now->act, strlen(now->act), how * 1000 + r.rc));
    drop(&r);
}
/* a wrong command line: nothing happens */
static void wrong(const char *what)
{
    mc_case("bpak%s (%s)", words(), what);
    struct res r = run(true);
    MC_CHECK(r.rc != 0, "a wrong command line succeeds");
    MC_CHECK((now->fl & NOFILE) ? !r.a : same(r.a, r.na, FL[0].d, FL[0].len), "the archive is changed");
    MC_CHECK(r.o && r.no == 6 && !memcmp(r.o, "before", 6), "the output file is changed");
    drop(&r);
    mc_eval(1);
}
static void help(const char *what)
{
    mc_case("bpak%s (%s)", words(), what);
    struct res r = run(true);
    MC_CHECK(r.rc == 0, "exit status %d", r.rc);
    char k[40];
    snprintf(k, sizeof k, "bpak %s", now->act);
    MC_CHECK(memmem(r.s, r.ns, k, strlen(k)), "the help text does not describe the command");
    MC_CHECK((now->fl & NOFILE) ? !r.a : same(r.a, r.na, FL[0].d, FL[0].len), "the archive is changed");
    MC_CHECK(r.o && r.no == 6 && !memcmp(r.o, "before", 6), "the output file is changed");
    drop(&r);
    mc_eval(1);
}
/* 0 unknown, 1 a flag, 2 takes a value: asking for help afterwards works only when understood */
static int arity(const char *act, const char *o)
{
    int r[2];
    for (int v = 0; v < 2; v++) {
        start(act);
        arg(o);
        if (v) arg("dont-hash");
        arg("-h");
        mc_case("bpak%s (listed in the help text)", words());
        struct res x = run(true);
        r[v] = x.rc;
        drop(&x);
    }
    return !r[0] ? 1 : !r[1] ? 2 : 0;
}
/* the options a help text lists are understood, in both spellings */
static void listed(const char *act)
{
    start(act);
    arg("-h");
    mc_case("bpak%s", words());
    struct res r = run(true);
    char *t = calloc(1, r.ns + 1), *sv = NULL;
    memcpy(t, r.s, r.ns);
    drop(&r);
    int n = 0;
    for (char *l = strtok_r(t, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
        char c, lo[60], a[4], b[70];
        if (sscanf(l, " -%c, --%50[a-z-]", &c, lo) != 2) continue;
        sprintf(a, "-%c", c);
        sprintf(b, "--%s", lo);
        int x = arity(act, a), y = arity(act, b);
        mc_case("help text of %s: %s", act, l);
        MC_CHECK(x, "-%c is not understood", c);
        MC_CHECK(y, "--%s is not understood", lo);
        MC_CHECK(x == y, "-%c and --%s are different options", c, lo);
        mc_eval(1);
        n++;
    }
    mc_case("bpak %s -h", act);
    MC_CHECK(n >= 2, "the help text of %s lists no options", act);
    free(t);
}
static int order[120][6], norder;
static void orders(const struct cmd *c, int *cur, int k, int n, int no)
{
    if (k == n) { memcpy(order[norder++], cur, n * sizeof *cur); return; }
    for (int u = 0; u < n; u++) {
        bool used = false, before = true;
        for (int i = 0; i < k; i++) used |= cur[i] == u;
        if (u > no) { before = false; for (int i = 0; i < k; i++) before |= cur[i] == u - 1; }
        if (used || !before || norder >= 120) continue;
        cur[k] = u;
        orders(c, cur, k + 1, n, no);
    }
}
static void command(const struct cmd *c)
{
    int no = count(c), n = no + npos(c), id[6] = {0, 1, 2, 3, 4, 5}, cur[6], sp[5] = {0};
    now = c;
    /* the plain command: file names first */
    int plain[6];
    for (int i = 0; i < n; i++) plain[i] = i < npos(c) ? no + i : i - npos(c);
    build(c, plain, n, NULL, 0, NULL);
    mc_case("bpak%s", words());
    want = run(false);
    MC_CHECK((c->fl & FAILS) ? want.rc != 0 : want.rc == 0 || !strcmp(c->act, "compare") || (c->fl & EMPTY), "the plain command ends with %d", want.rc);
    norder = 0;
    orders(c, cur, 0, n, no);
    int nsp = 1;
    for (int i = 0; i < no; i++) nsp *= 4;
    for (int q = 0; q < norder; q++)
        for (int x = 0; x < nsp; x++) {
            if (!mc_mine()) continue;
            bool skip = false;
            for (int y = x, i = 0; i < no; i++, y /= 4) {
                sp[i] = y % 4;
                if (!c->o[i].v && (sp[i] & 1)) skip = true; /* flags have two spellings */
                if (c->o[i].v && !*c->o[i].v && sp[i] == 3) skip = true;
            }
            if (skip) continue;
            build(c, order[q], n, sp, 0, NULL);
            check(PLAIN, "order and spelling");
        }
    /* the end of the options is marked */
    for (int s = 0; s < 4; s++) {
        if (!mc_mine()) continue;
        for (int i = 0; i < no; i++) sp[i] = c->o[i].v ? (!*c->o[i].v && s == 3 ? 2 : s) : s & 2;
        build(c, id, n, sp, no, (const char *[]){"--", NULL});
        check(PLAIN, "end of options");
    }
    /* grouped flags and the last one with a value */
    if (mc_mine()) {
        start(c->act);
        char g[400] = "-";
        const char *later = NULL;
        for (int i = 0; i < no; i++) if (!c->o[i].v) sprintf(g + strlen(g), "%c", c->o[i].s);
        bool flags = g[1];
        for (int i = no - 1, first = 1; i >= 0; i--)
            if (c->o[i].v) {
                if (first && flags && c->o[i].v[0]) { sprintf(g + strlen(g), "%c", c->o[i].s); later = val(c->o[i].v); }
                else add_opt(&c->o[i], 2);
                first = 0;
            }
        if (flags) arg(g);
        if (later) arg(later);
        for (int i = 0; i < npos(c); i++) add_pos(c, i);
        check(PLAIN, "grouped");
    }
    /* verbosity */
    static const char *const V[][5] = {{"-v"}, {"--verbose"}, {"-vv"}, {"-v", "-v", "-v"}, {"-vvvv"}};
    for (int v = 0; v < 5; v++)
        for (int at = 0; at <= n; at++)
            for (int s = 0; s < 4; s += 2)
                for (int q = 0; q < (mc_thorough ? norder : 1); q++) {
                    if ((at && at < n && v > 1 && !mc_thorough) || !mc_mine()) continue;
                    for (int i = 0; i < no; i++) sp[i] = s;
                    build(c, mc_thorough ? order[q] : plain, n, sp, at, V[v]);
                    check(VERBOSE, "verbose");
                }
    /* wrong */
    static const char *const W[][3] = {{"-Z"}, {"--nosuch"}, {"--nosuch=1"}, {"-9"}, {"--help=1"}, {"--verbose=1"}, {"-vZ"}};
    for (int w = 0; w < 7; w++)
        for (int at = 0; at <= n; at++) {
            if (!mc_mine()) continue;
            build(c, plain, n, NULL, at, W[w]);
            wrong("unknown option");
        }
    for (int i = 0; i < no; i++)
        for (int s = 0; s < 2; s++) {
            if (!mc_mine()) continue;
            char t[100];
            if (c->o[i].v) { /* the value is missing at the end */
                start(c->act);
                for (int k = 0; k < npos(c); k++) add_pos(c, k);
                for (int k = 0; k < no; k++) if (k != i) add_opt(&c->o[k], 0);
                snprintf(t, sizeof t, s ? "-%.1s" : "--%s", s ? &c->o[i].s : c->o[i].l);
                arg(t);
                wrong("missing value");
            } else if (!s) {
                build(c, plain, n, NULL, 0, NULL);
                snprintf(t, sizeof t, "--%s=1", c->o[i].l);
                arg(t);
                wrong("value for a flag");
            }
        }
    /* the command's name: every beginning of it, with a letter more, less or another one */
    size_t al = strlen(c->act);
    for (size_t i = 0; i <= al; i++)
        for (int m = 0; m < 6; m++) {
            char t[40];
            snprintf(t, sizeof t, "%s", c->act);
            if (m == 0 && i < al) t[i] = 0;
            else if (m == 1 && i < al) t[i] ^= 0x20;
            else if (m == 2 && i < al) t[i]++;
            else if (m == 3 && i < al) memmove(t + i, t + i + 1, al - i);
            else if (m == 4) snprintf(t, sizeof t, "%.*s%c%s", (int)i, c->act, i < al ? c->act[i] : 's', c->act + i);
            else if (m == 5) snprintf(t, sizeof t, "%.*s-%s", (int)i, c->act, c->act + i);
            if (!strcmp(t, c->act) || (t[0] == '-' && m == 5) || !mc_mine()) continue;
            build(c, plain, n, NULL, 0, NULL);
            snprintf(store[1], 400, "%s", t);
            wrong("unknown command");
        }
    for (int k = 0; k < npos(c); k++) {
        if (!mc_mine()) continue;
        start(c->act);
        for (int i = 0; i < no; i++) add_opt(&c->o[i], 0);
        for (int i = 0; i < k; i++) add_pos(c, i);
        if (strcmp(c->act, "generate") || strcmp(c->pos[0], "id")) wrong("missing file name");
    }
    /* help */
    for (int s = 0; s < 2; s++)
        for (int at = 0; at <= n; at++) {
            if (!mc_mine()) continue;
            build(c, plain, n, NULL, at, s ? (const char *[]){"--help", NULL} : (const char *[]){"-h", NULL});
            help("help");
        }
    drop(&want);
}
static void top(void)
{
    static const char *const T[][3] = {{0}, {"-h"}, {"--help"}, {"-V"}, {"--version"}};
    static const char *const B[][3] = {{"-Z"}, {"--nosuch"}, {"nosuch"}, {""}, {"Show"}, {"show "}, {"sho"}, {"shows"}, {"--"}, {"-"}, {"--help=1"}, {"-hZ"}, {"show"}};
    now = &C[0];
    for (int i = 0; i < 5; i++) {
        if (!mc_mine()) continue;
        an = 0; arg("bpak");
        for (int k = 0; T[i][k]; k++) arg(T[i][k]);
        mc_case("bpak%s", words());
        struct res r = run(true);
        MC_CHECK(r.rc == 0, "exit status %d", r.rc);
        if (i > 2) {
            char t[100];
            int n = snprintf(t, sizeof t, "BitPacker %s\n", bpak_version());
            MC_CHECK(r.ns == (size_t)n && !memcmp(r.s, t, n), "not the version");
        } else
            for (int c = 0; c < NC; c++) MC_CHECK(memmem(r.s, r.ns, C[c].act, strlen(C[c].act)), "%s is not in the list of commands", C[c].act);
        drop(&r);
        mc_eval(1);
    }
    for (int c = 0; c < NC; c++)
        if ((!c || strcmp(C[c].act, C[c - 1].act)) && mc_mine()) listed(C[c].act);
    for (int i = 0; i < 13; i++)
        for (int f = 0; f < 2; f++) {
            if (!mc_mine() || (i == 11)) continue;
            if (i == 12 && f) continue;
            an = 0; arg("bpak");
            for (int k = 0; B[i][k]; k++) arg(B[i][k]);
            if (f) arg(path('A'));
            wrong("no command");
        }
}
/* any selection of a command's options, whether it makes sense or not, means the same in any
 * order and spelling */
static const struct mix { const char *act; struct op o[9]; const char *pos[3]; int fl; } MX[] = {
    {"create", {{"force", 'Y', 0}, {"hash-kind", 'H', "sha384"}, {"signature-kind", 'S', "secp521r1"}}, {"A"}, NOFILE},
    {"create", {{"force", 'Y', 0}, {"hash-kind", 'H', "md5"}, {"signature-kind", 'S', "none"}}, {"A"}, NOFILE},
    {"add", {{"part", 'p', "new"}, {"meta", 'm', "mm"}, {"from-file", 'f', "$M"}, {"from-string", 's', "12"}, {"encoder", 'e', "integer"}, {"set-flag", 'F', "dont-hash"}, {"part-ref", 'r', "data"}}, {"A"}},
    {"add", {{"part", 'p', "new"}, {"meta", 'm', "mm"}, {"from-file", 'f', "$M"}, {"from-string", 's', "data"}, {"encoder", 'e', "id"}, {"set-flag", 'F', "nosuch"}, {"part-ref", 'r', "none"}}, {"A"}},
    {"add", {{"part", 'p', "new"}, {"meta", 'm', "mm"}, {"from-file", 'f', "$M"}, {"from-string", 's', "data"}, {"encoder", 'e', "merkle"}, {"set-flag", 'F', "dont-hash"}, {"part-ref", 'r', "none"}}, {"A"}},
    {"add", {{"part", 'p', "new"}, {"meta", 'm', "mm"}, {"from-file", 'f', "$P"}, {"from-string", 's', "data"}, {"encoder", 'e', "key"}, {"set-flag", 'F', "dont-hash"}, {"part-ref", 'r', "data"}}, {"A"}},
    {"delete", {{"part", 'p', "data"}, {"all", 'a', 0}, {"keep-meta", 'k', 0}}, {"A"}},
    {"delete", {{"part", 'p', "none"}, {"all", 'a', 0}, {"keep-meta", 'k', 0}}, {"A"}},
    {"extract", {{"part", 'p', "data"}, {"meta", 'm', "text"}, {"output", 'o', "$O"}, {"part-ref", 'r', "data"}}, {"A"}},
    {"extract", {{"part", 'p', "excl"}, {"meta", 'm', "num"}, {"output", 'o', "/nosuch/dir/f"}, {"part-ref", 'r', "0"}}, {"A"}},
    {"sign", {{"key", 'k', "$K"}, {"signature", 'f', "$S"}}, {"A"}},
    {"sign", {{"key", 'k', "/nosuch"}, {"signature", 'f', "$S"}}, {"A"}},
    {"verify", {{"key", 'k', "$P"}, {"keystore", 'K', "$T"}}, {"A"}},
    {"verify", {{"key", 'k', "$Q"}, {"keystore", 'K', "$T"}}, {"A"}},
    {"verify", {{"key", 'k', "$P"}, {"keystore", 'K', "$A"}}, {"A"}},
    {"show", {{"meta", 'm', "text"}, {"part", 'p', "data"}, {"part-hash", 'P', "excl"}, {"hash", 'H', 0}, {"binary-hash", 'B', 0}}, {"A"}},
    {"show", {{"meta", 'm', "none"}, {"part", 'p', "excl"}, {"part-hash", 'P', "data"}, {"hash", 'H', 0}, {"binary-hash", 'B', 0}}, {"A"}},
    {"set", {{"meta", 'm', "text"}, {"from-string", 's', "13"}, {"encoder", 'e', "integer"}, {"key-id", 'k', "kid"}, {"keystore-id", 'i', "0x1234"}}, {"A"}},
    {"set", {{"meta", 'm', "num"}, {"from-string", 's', "13"}, {"encoder", 'e', "integer"}, {"key-id", 'k', "0x0"}, {"keystore-id", 'i', "sid"}}, {"A"}},
    {"set", {{"meta", 'm', "num"}, {"from-string", 's', "x"}, {"encoder", 'e', "integer"}, {"key-id", 'k', "0x0"}, {"keystore-id", 'i', "sid"}}, {"A"}},
    {"transport", {{"add", 'a', 0}, {"encode", 'E', 0}, {"decode", 'D', 0}, {"origin", 'O', "$G"}, {"output", 'o', "$O"}, {"encoder", 'e', "bsdiff"}, {"decoder", 'd', "bspatch"}, {"part-ref", 'r', "data"}}, {"A"}},
    {"transport", {{"encode", 'E', 0}, {"decode", 'D', 0}, {"origin", 'O', "$G"}, {"output", 'o', "$O"}, {"encoder", 'e', "bsdiff"}, {"part-ref", 'r', "data"}}, {"B"}},
    {"transport", {{"encode", 'E', 0}, {"decode", 'D', 0}, {"origin", 'O', "$G"}, {"output", 'o', "$O"}, {"decoder", 'd', "bspatch"}, {"part-ref", 'r', "none"}}, {"L"}},
    {"generate", {{"name", 'n', "x"}, {"decorate", 'd', 0}}, {"keystore", "T"}},
    {"generate", {{"name", 'n', "x"}, {"decorate", 'd', 0}}, {"id", "abc"}},
};
static bool next_perm(int *a, int n)
{
    int i = n - 2, j = n - 1;
    while (i >= 0 && a[i] > a[i + 1]) i--;
    if (i < 0) return false;
    while (a[j] < a[i]) j--;
    int t = a[i]; a[i] = a[j]; a[j] = t;
    for (j = n - 1, i++; i < j; i++, j--) { t = a[i]; a[i] = a[j]; a[j] = t; }
    return true;
}
static void mixture(const struct mix *m)
{
    int n = 0, max = mc_thorough ? 5 : 4;
    while (n < 9 && m->o[n].l) n++;
    for (int set = 0; set < 1 << n; set++) {
        int k = __builtin_popcount(set), ord[8], sp[9];
        if (k > max || !mc_mine()) continue;
        struct cmd c = {m->act, {{0}}, {m->pos[0], m->pos[1]}, m->fl};
        k = 0;
        for (int i = 0; i < n; i++) if (set >> i & 1) c.o[k++] = m->o[i];
        if (!strcmp(m->act, "sign") && set == 1 && m->o[0].v[0] == '$') c.fl |= SIGN;
        now = &c;
        int np = npos(&c);
        for (int i = 0; i < k; i++) ord[i] = i;
        for (int i = 0; i < np; i++) ord[k + i] = k + i;
        build(&c, ord, k + np, NULL, 0, NULL);
        mc_case("bpak%s", words());
        want = run(false);
        mc_state(mc_hash(words(), strlen(words()), 2));
        do {
            if (k == 4 && !mc_thorough && ord[0] < ord[1] && ord[1] < ord[2]) continue;
            for (int s = 0; s < 4; s++) {
                if ((k > 3 || (s & 1)) && !mc_thorough && s != 2 * (ord[0] & 1)) continue;
                for (int i = 0; i < k; i++) sp[i] = s;
                /* the file name last, first and after the first option */
                int w = (s + ord[0]) % 3, o2[8];
                int at = w == 0 ? k : w == 1 ? 0 : k ? 1 : 0;
                for (int i = 0, j = 0; i < k; i++) { if (i == at) for (int x = 0; x < np; x++) o2[j++] = k + x; o2[j++] = ord[i]; if (i == k - 1 && at == k) for (int x = 0; x < np; x++) o2[j++] = k + x; }
                if (!k) for (int x = 0; x < np; x++) o2[x] = x;
                build(&c, o2, k + np, sp, 0, NULL);
                check(PLAIN, "any selection");
            }
        } while (next_perm(ord, k));
        drop(&want);
    }
}
int mc_run(void)
{
    struct pu p;
    static uint8_t R[40000];
    pu_fill(R, sizeof R, 3);
    strcpy(OUT, mc_path("out")); strcpy(STD, mc_path("std"));
    pu_inproc = true;
    /* keystore */
    uint32_t prov = pu_id("prov");
    pu_init(&p, 1); pu_uuid(&p, 0);
    pu_meta(&p, pu_id("keystore-provider-id"), 0, &prov, 4);
    pu_save(&p, mc_path("T1")); pu_free(&p);
    if (tool("", "add", mc_path("T1"), "--part", "k2", "--from-file", pu_key("p256-a.pub.pem"), "--encoder", "key", NULL)) mc_fail("no keystore");
    pu_init(&p, 1); pu_uuid(&p, 1);
    pu_meta(&p, pu_id("text"), 0, "hello", 6);
    uint64_t num = 5;
    pu_meta(&p, pu_id("num"), 0, &num, 8);
    pu_part(&p, pu_id("data"), R + 100, 9000, 0);
    pu_part(&p, pu_id("excl"), R + 200, 300, 1);
    pu_meta(&p, pu_id("text"), pu_id("data"), "bound", 6);
    p.h.key_id = pu_id("k2"); p.h.keystore_id = prov;
    pu_rehash(&p); pu_sign(&p, pu_key("p256-a.pem")); pu_save(&p, mc_path("A1")); pu_free(&p);
    pu_init(&p, 1); pu_uuid(&p, 1);
    pu_part(&p, pu_id("data"), R + 90, 9000, 0);
    pu_rehash(&p); pu_save(&p, mc_path("G1")); pu_free(&p);
    pu_init(&p, 1); pu_uuid(&p, 1);
    pu_part(&p, pu_id("data"), R + 100, 9300, 0);
    pu_transport(&p, pu_id("data"), "bsdiff", "bspatch");
    pu_rehash(&p); pu_sign(&p, pu_key("p256-a.pem")); pu_save(&p, mc_path("B1")); pu_free(&p);
    mc_write_file(mc_path("D1"), R, 700);
    mc_write_file(mc_path("M1"), R, 8192);
    mc_write_file(mc_path("S1"), R, 70);
    if (tool("", "transport", mc_path("B1"), "--encode", "--origin", mc_path("G1"), "--output", mc_path("L1"), NULL)) mc_fail("encoding fails");
    for (const char *n = "AGBDMSTL"; *n; n++) keep(*n);
    top();
    for (int i = 0; i < NC; i++) command(&C[i]);
    for (size_t i = 0; i < sizeof MX / sizeof *MX; i++) mixture(&MX[i]);
    mc_sample("bpak add -e integer -r data A -mmm --from-string=0x1234");
    return 0;
}
