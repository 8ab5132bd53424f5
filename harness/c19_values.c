/* C19: metadata and header fields set through the tool read back exactly. */
#include "mc.h"
#include "pu.h"
#include <unistd.h>
#include <ctype.h>

static uint8_t R[9000];
static char W[300], X[300], SRC[300];

struct ent { uint32_t id, ref; int n; bool grown_ok; uint8_t d[1921]; };
struct model { int n; struct ent e[33]; uint32_t key, ks; };
static struct pu base; /* archive before the operation */
static void from_pu(struct model *m, const struct pu *p)
{
    m->n = 0;
    for (int i = 0; i < 32 && p->h.meta[i].id; i++) {
        struct ent *e = &m->e[m->n++];
        e->id = p->h.meta[i].id;
        e->ref = p->h.meta[i].part_id_ref;
        e->n = p->h.meta[i].size;
        e->grown_ok = false;
        if (p->h.meta[i].offset + e->n > 1920) mc_fail("entry %x reaches outside the metadata area", e->id);
        memcpy(e->d, p->h.metadata + p->h.meta[i].offset, e->n);
    }
    m->key = p->h.key_id;
    m->ks = p->h.keystore_id;
}
static struct ent *get(struct model *m, uint32_t id, uint32_t ref)
{
    for (int i = 0; i < m->n; i++) if (m->e[i].id == id && m->e[i].ref == ref) return &m->e[i];
    return NULL;
}
static int raw_sum(const struct model *m, int al)
{
    int s = 0;
    for (int i = 0; i < m->n; i++) s += al ? (m->e[i].n + 7) / 8 * 8 : m->e[i].n;
    return s;
}
/* outcome required by the property */
enum { NO, YES, EITHER };
static int parse_int(const char *s, uint64_t *v)
{
    const char *q = s;
    int soft = YES;
    while (isspace((unsigned char)*q)) { q++; soft = EITHER; }
    bool neg = *q == '-';
    if (*q == '+') soft = EITHER;
    if (*q == '-' || *q == '+') q++;
    int b = 10;
    if (q[0] == '0' && (q[1] == 'x' || q[1] == 'X')) { b = 16; q += 2; }
    else if (q[0] == '0') b = 8;
    if (!isxdigit((unsigned char)*q)) return NO;
    unsigned __int128 a = 0;
    for (; *q; q++) {
        int d = *q >= '0' && *q <= '9' ? *q - '0' : *q >= 'a' && *q <= 'f' ? *q - 'a' + 10 : *q >= 'A' && *q <= 'F' ? *q - 'A' + 10 : 99;
        if (d >= b) break;
        if (a < ((unsigned __int128)1 << 100)) a = a * b + d;
    }
    while (isspace((unsigned char)*q)) { q++; soft = EITHER; }
    if (*q) return NO;
    if (a > UINT64_MAX) return NO;
    if (neg && a > (unsigned __int128)1 << 63) return NO;
    if (!neg && a > INT64_MAX) soft = EITHER;
    *v = neg ? -(uint64_t)a : (uint64_t)a;
    return soft;
}
static int parse_uuid(const char *s, uint8_t *o)
{
    if (strlen(s) != 36) return NO;
    int k = 0;
    for (int i = 0; i < 36; ) {
        if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return NO; i++; continue; }
        if (!isxdigit((unsigned char)s[i]) || !isxdigit((unsigned char)s[i + 1])) return NO;
        char t[3] = {s[i], s[i + 1], 0};
        o[k++] = strtoul(t, NULL, 16);
        i += 2;
    }
    return YES;
}
struct op { char kind; /* a=add s=set k=key ids */ const char *name, *ref, *enc, *val; const uint8_t *file; int flen; const char *key, *ks; };
static const char *desc(const struct op *o)
{
    static char b[6][300];
    static int n;
    char *r = b[n++ % 6];
    char v[70] = "";
    if (o->val) { if (strlen(o->val) > 48) sprintf(v, "'%.20s...' (%zu characters)", o->val, strlen(o->val)); else sprintf(v, "'%s'", o->val); }
    else if (o->flen >= 0) sprintf(v, "file of %d bytes", o->flen);
    snprintf(r, 300, "%s%s%s%s%s %s%s%s%s%s%s%s", o->kind == 'a' ? "add" : "set", o->name ? " --meta " : "", o->name ? o->name : "", o->ref ? " --part-ref " : "", o->ref ? o->ref : "", v, o->enc ? " --encoder " : "", o->enc ? o->enc : "",
             o->key ? " --key-id " : "", o->key ? o->key : "", o->ks ? " --keystore-id " : "", o->ks ? o->ks : "");
    return r;
}
static uint32_t idref(const char *s) { return strncmp(s, "0x", 2) ? pu_id(s) : strtoul(s, NULL, 16); }
static int expect(const struct op *o, struct model *m)
{
    int res = YES;
    if (o->name) {
        uint32_t id = pu_id(o->name), ref = o->ref ? pu_id(o->ref) : 0;
        struct ent *e = get(m, id, ref);
        static uint8_t v[5000];
        char sv[5000];
        int n = 0;
        bool str = false;
        if (o->val) snprintf(sv, sizeof sv, "%s", o->val);
        else { memcpy(sv, o->file, o->flen); sv[o->flen] = 0; }
        if (!o->enc) {
            if (o->val) { n = strlen(o->val) + 1; memcpy(v, o->val, n); str = true; }
            else { n = o->flen; memcpy(v, o->file, n); }
            if (n == 0 || n > 1920) return NO;
        } else if (!strcmp(o->enc, "integer")) {
            uint64_t x;
            res = parse_int(sv, &x);
            if (res == NO) return NO;
            memcpy(v, &x, n = 8);
        } else if (!strcmp(o->enc, "id")) {
            uint32_t x = pu_id(sv);
            memcpy(v, &x, n = 4);
            if (!o->val) res = o->flen ? EITHER : NO;
            if (o->val && strlen(o->val) > 1900) res = EITHER;
        } else if (!strcmp(o->enc, "uuid") && o->kind == 'a') {
            res = parse_uuid(sv, v);
            n = 16;
        } else return NO;
        if (res == NO) return NO;
        if (o->kind == 'a') {
            if (e || m->n == 32) return NO;
            if (raw_sum(m, 0) + n > 1920) return NO;
            if (raw_sum(m, 1) + (n + 7) / 8 * 8 > 1920) res = EITHER;
            e = &m->e[m->n++];
            e->id = id;
            e->ref = ref;
            e->n = n;
            e->grown_ok = false;
            memcpy(e->d, v, n);
        } else {
            if (!e) return NO;
            if (str) {
                if (n <= e->n) { memset(e->d, 0, e->n); memcpy(e->d, v, n); e->grown_ok = true; }
                else {
                    if (raw_sum(m, 0) - e->n + n > 1920) return NO;
                    if (raw_sum(m, 1) - (e->n + 7) / 8 * 8 + (n + 7) / 8 * 8 > 1920) res = EITHER;
                    e->n = n;
                    memcpy(e->d, v, n);
                }
            } else {
                if (e->n != n) return NO;
                memcpy(e->d, v, n);
            }
        }
    }
    if (o->key) m->key = idref(o->key);
    if (o->ks) m->ks = idref(o->ks);
    return res;
}
static int run(const struct op *o)
{
    char *a[20] = {"bpak", o->kind == 'a' ? "add" : "set", W};
    int n = 3;
    if (o->name) { a[n++] = "--meta"; a[n++] = (char *)o->name; }
    if (o->ref) { a[n++] = "--part-ref"; a[n++] = (char *)o->ref; }
    if (o->val) { a[n++] = "--from-string"; a[n++] = (char *)o->val; }
    else if (o->name) { mc_write_file(SRC, o->file, o->flen); a[n++] = "--from-file"; a[n++] = SRC; }
    if (o->enc) { a[n++] = "--encoder"; a[n++] = (char *)o->enc; }
    if (o->key) { a[n++] = "--key-id"; a[n++] = (char *)o->key; }
    if (o->ks) { a[n++] = "--keystore-id"; a[n++] = (char *)o->ks; }
    a[n] = NULL;
    return toolv(NULL, a);
}
/* performs one operation on W (currently equal to *cur) and checks the outcome */
static void step(const struct op *o, struct pu *cur)
{
    static struct model want, got;
    static struct pu after;
    from_pu(&want, cur);
    int res = expect(o, &want);
    int rc = run(o);
    mc_eval(1);
    if (!pu_load(&after, W)) mc_fail("the archive is gone");
    if (res == NO) MC_CHECK(rc, "the value should be refused but is accepted");
    if (res == YES) MC_CHECK(!rc, "refused with exit code %d", rc);
    mc_distinct(mc_hash(&rc, 4, res));
    MC_CHECK(after.len == cur->len && !memcmp(after.data, cur->data, cur->len), "the parts changed");
    if (rc) { MC_CHECK(!memcmp(&after.h, &cur->h, 4096), "the refused command (exit %d) changed the header", rc); return; }
    from_pu(&got, &after);
    MC_CHECK(got.n == want.n, "%d metadata entries instead of %d", got.n, want.n);
    MC_CHECK(got.key == want.key && got.ks == want.ks, "key id %x keystore id %x instead of %x %x", got.key, got.ks, want.key, want.ks);
    for (int i = 0; i < want.n; i++) {
        struct ent *w = &want.e[i], *g = get(&got, w->id, w->ref);
        MC_CHECK(g, "entry %x/%x is missing", w->id, w->ref);
        if (w->grown_ok && g->n < w->n) { /* a shortened string may also shrink the entry, down to its terminator */
            int k = strlen((char *)w->d) + 1;
            MC_CHECK(g->n >= k && !memcmp(g->d, w->d, g->n), "entry %x/%x is cut", w->id, w->ref);
            continue;
        }
        MC_CHECK(g->n == w->n && !memcmp(g->d, w->d, w->n), "entry %x/%x holds %d bytes %.60s instead of %d bytes %.60s", w->id, w->ref, g->n, mc_hex(g->d, g->n < 30 ? g->n : 30), w->n, mc_hex(w->d, w->n < 30 ? w->n : 30));
    }
    struct bpak_header e = after.h;
    memcpy(e.meta, cur->h.meta, sizeof e.meta);
    memcpy(e.metadata, cur->h.metadata, sizeof e.metadata);
    e.key_id = cur->h.key_id;
    e.keystore_id = cur->h.keystore_id;
    MC_CHECK(!memcmp(&e, &cur->h, 4096), "header fields outside the metadata and key ids changed");
    if (o->name) {
        /* read back */
        struct ent *g = get(&got, pu_id(o->name), o->ref ? pu_id(o->ref) : 0);
        size_t n;
        int r = o->ref ? tool(NULL, "extract", W, "--meta", o->name, "--part-ref", o->ref, "--output", X, NULL) : tool(NULL, "extract", W, "--meta", o->name, "--output", X, NULL);
        uint8_t *b = mc_read_file(X, &n);
        MC_CHECK(r == 0 && b && n == (size_t)g->n && !memcmp(b, g->d, n), "extract (exit %d) returns other bytes than the entry holds", r);
        free(b);
        struct pu again = {0};
        pu_load(&again, W);
        MC_CHECK(!memcmp(&again.h, &after.h, 4096), "extract changed the archive");
        pu_free(&again);
    }
    mc_state(mc_hash(&after.h, 4096, 0));
}
#define MAXOPS 200
static struct op O[MAXOPS];
static int no;
static void o_(char kind, const char *name, const char *ref, const char *val, const char *enc) { O[no++] = (struct op){kind, name, ref, enc, val, NULL, -1, NULL, NULL}; }
static void of(const char *name, const char *ref, const uint8_t *f, int n, const char *enc) { O[no++] = (struct op){'a', name, ref, enc, NULL, f, n, NULL, NULL}; }
static void ok(const char *name, const char *val, const char *key, const char *ks) { O[no++] = (struct op){'s', name, NULL, NULL, val, NULL, -1, key, ks}; }
static char *rep(char c, int n) { char *s = malloc(n + 1); memset(s, c, n); s[n] = 0; return s; }
static const char *ints[] = {"0", "1", "-1", "42", "0x2a", "052", "0xffffffffffffffff", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999", " 7", "7 ", "7\n", "+5", "", " ", "zz", "1.5", "0x", "1e3", "12zz", "08", "0xg", "--1", "1 2", "0X1F", "4294967296", "-0x10", NULL};
static const char *uuids[] = {"0123abcd-4567-89ab-cdef-0123456789ab", "0123ABCD-4567-89AB-CDEF-0123456789AB", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "0123abcd-4567-89ab-cdef-0123456789a", "0123abcd-4567-89ab-cdef-0123456789abc", "0123abcd456789abcdef0123456789ab", "{123abcd-4567-89ab-cdef-0123456789a}", "0123abcd-4567-89ab-cdef-0123456789ag", "0123abcd-4567-89ab-cdef_0123456789ab", "0123abc-d4567-89ab-cdef-0123456789ab", "", NULL};
static void ops(void)
{
    static const int L[] = {0, 1, 6, 7, 8, 39, 63, 64, 500, 1919, 1920};
    for (int i = 0; i < 11; i++) {
        o_('a', "a", NULL, rep('a' + i, L[i]), NULL);
        o_('s', "a", NULL, rep('A' + i, L[i]), NULL);
        if (i % 2) o_('a', "b", NULL, rep('k' + i, L[i]), NULL), o_('a', "a", "data", rep('n' + i % 9, L[i]), NULL);
        if (i % 3 == 1) o_('s', "b", NULL, rep('K' + i, L[i]), NULL), o_('s', "text", NULL, rep('Z', L[i]), NULL);
    }
    o_('a', "n", NULL, "5", "integer"); o_('a', "n", "data", "6", "integer"); o_('s', "n", NULL, "77", "integer"); o_('s', "n", NULL, "x", "integer"); o_('s', "num", NULL, "-3", "integer"); o_('s', "a", NULL, "9", "integer"); o_('s', "num", NULL, "9z", "integer");
    o_('a', "i", NULL, "some-name", "id"); o_('s', "i", NULL, "other", "id"); o_('s', "a", NULL, "other", "id"); o_('s', "a", NULL, "other", "uuid"); o_('s', "a", NULL, "other", "nonsense"); o_('a', "c", NULL, "x", "nonsense");
    o_('a', "u", NULL, uuids[0], "uuid"); o_('a', "u", "fs", uuids[1], "uuid"); o_('a', "u", NULL, uuids[4], "uuid"); o_('s', "u", NULL, "short", NULL);
    of("f", NULL, R, 1, NULL); of("f", NULL, R, 100, NULL); of("f", "data", R + 5, 8, NULL); of("f", NULL, R, 0, NULL); of("f", NULL, R, 1920, NULL); of("f", NULL, R, 1921, NULL); of("g", NULL, (uint8_t *)"123\n", 4, "integer"); of("g", NULL, (uint8_t *)"name", 4, "id");
    ok(NULL, NULL, "my-key", NULL); ok(NULL, NULL, NULL, "my-store"); ok(NULL, NULL, "0x12345678", "0xdeadbeef"); ok(NULL, NULL, "0x0", NULL); ok(NULL, NULL, NULL, "0xffffffff"); ok("a", "both", "k1", "k2"); ok("missing", "x", "k3", "k4");
}
static void explore(int depth, int max, struct pu *cur, const char *st, const char *trail)
{
    for (int i = 0; i < no; i++) {
        if (depth == 0 && !mc_mine()) continue;
        char t[1000];
        snprintf(t, sizeof t, "%s%s; ", trail, desc(&O[i]));
        mc_case("%s archive: %s", st, t);
        step(&O[i], cur);
        struct pu now = {0};
        pu_load(&now, W);
        bool changed = memcmp(&now.h, &cur->h, 4096);
        if (changed && depth + 1 < max) explore(depth + 1, max, &now, st, t);
        if (changed) pu_save(cur, W);
        pu_free(&now);
    }
}
static void state(struct pu *p, int s)
{
    pu_init(p, 1 + s % 3);
    if (s == 0) { pu_rehash(p); return; }
    pu_part(p, pu_id("data"), R, 700, 0);
    pu_meta(p, pu_id("text"), 0, "hello", 6);
    pu_meta(p, pu_id("text"), pu_id("data"), "bound", 6);
    uint64_t v = 5;
    pu_meta(p, pu_id("num"), 0, &v, 8);
    if (s == 1) { pu_meta(p, pu_id("a"), pu_id("data"), "bound only", 11); pu_uuid(p, 1); }
    if (s == 2) { for (int i = 0; i < 27; i++) { char n[9]; sprintf(n, "m%d", i); pu_meta(p, pu_id(n), 0, R + i, 3 + i % 9); } pu_meta(p, pu_id("a"), 0, "first", 6); } /* 31 entries */
    if (s == 3) { pu_meta(p, pu_id("fill"), 0, R, 1920 - 24 - 64); pu_meta(p, pu_id("a"), 0, "x", 2); }
    pu_rehash(p);
    pu_sign(p, pu_key("p256-a.pem"));
}
static const char *sn[] = {"empty", "signed", "31 entry", "nearly full"};
static void sweep(void)
{
    struct pu p;
    for (int s = 0; s < 2; s++) {
        state(&p, s);
        struct op o = {'a', "v", NULL, "integer", NULL, NULL, -1, NULL, NULL};
        char b[60];
        for (int i = 0; ints[i]; i++) if (mc_mine()) { o.val = ints[i]; mc_case("%s archive: %s", sn[s], desc(&o)); pu_save(&p, W); step(&o, &p); }
        int lim = mc_thorough ? 70000 : 4200;
        for (int i = -lim; i <= lim; i += i > -300 && i < 300 ? 1 : 7) {
            if (!mc_mine()) continue;
            sprintf(b, i & 1 ? "%d" : i < 0 ? "-0x%x" : "0x%x", i & 1 ? i : abs(i));
            o.val = b;
            mc_case("%s archive: %s", sn[s], desc(&o));
            pu_save(&p, W);
            step(&o, &p);
        }
        for (int i = 0; i < 64; i++)
            for (int d = -1; d <= 1; d++)
                for (int f = 0; f < 4; f++) {
                    if (!mc_mine()) continue;
                    uint64_t x = (1ull << i) + d;
                    sprintf(b, f == 0 ? "%lu" : f == 1 ? "0x%lx" : f == 2 ? "0%lo" : "-%lu", (unsigned long)x);
                    o.val = b;
                    mc_case("%s archive: %s", sn[s], desc(&o));
                    pu_save(&p, W);
                    step(&o, &p);
                }
        /* the same numbers set */
        struct op so = {'s', "num", NULL, "integer", NULL, NULL, -1, NULL, NULL};
        for (int i = 0; s && ints[i]; i++) if (mc_mine()) { so.val = ints[i]; mc_case("%s archive: %s", sn[s], desc(&so)); pu_save(&p, W); step(&so, &p); }
        for (int i = 0; s && i < 64; i++)
            for (int d = -1; d <= 1; d++)
                for (int f = 0; f < 8; f++) {
                    if (!mc_mine()) continue;
                    static const char *fm[] = {"%lu", "0x%lx", "0%lo", "-%lu", "-0x%lx", "-0%lo", " +0x%lX", "\t%lu\n"};
                    uint64_t x = (1ull << i) + d;
                    sprintf(b, fm[f], (unsigned long)x);
                    so.val = b;
                    mc_case("%s archive: %s", sn[s], desc(&so));
                    pu_save(&p, W);
                    step(&so, &p);
                }
        o.enc = "uuid";
        for (int i = 0; uuids[i]; i++) if (mc_mine()) { o.val = uuids[i]; mc_case("%s archive: %s", sn[s], desc(&o)); pu_save(&p, W); step(&o, &p); }
        for (int i = 0; i < 36; i++)
            for (int c = 0; c < 5; c++) {
                if (!mc_mine()) continue;
                strcpy(b, uuids[0]);
                b[i] = "0fF-g"[c];
                o.val = b;
                mc_case("%s archive: %s", sn[s], desc(&o));
                pu_save(&p, W);
                step(&o, &p);
            }
        /* every string and file length, added and set */
        for (int n = 0; n <= 1925; n += mc_thorough || n < 80 || n > 1700 ? 1 : 13) {
            for (int k = 0; k < 4; k++) {
                if (!mc_mine()) continue;
                char *v = rep('q', n);
                static uint8_t f[2000];
                memcpy(f, R, n);
                struct op q = {k < 2 ? 'a' : 's', k < 2 ? "v" : k == 2 ? "num" : "text", NULL, NULL, k == 1 ? NULL : v, f, n, NULL, NULL};
                mc_case("%s archive: %s", sn[s], desc(&q));
                pu_save(&p, W);
                step(&q, &p);
                free(v);
            }
        }
        pu_free(&p);
    }
}
int mc_run(void)
{
    pu_inproc = true;
    pu_fill(R, sizeof R, 31);
    strcpy(W, mc_path("w"));
    strcpy(X, mc_path("x"));
    strcpy(SRC, mc_path("src"));
    ops();
    sweep();
    for (int s = 0; s < 4; s++) {
        struct pu p;
        state(&p, s);
        pu_save(&p, W);
        explore(0, mc_thorough ? 3 : 2, &p, sn[s], "");
        pu_free(&p);
    }
    return 0;
}
