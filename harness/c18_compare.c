/* C18: compare reports equality exactly when packages are equal. */
#include "mc.h"
#include "pu.h"
#include <unistd.h>
#include <ctype.h>

static uint8_t R[20000];
static char A[300], B[300], O[300];
struct row { char sec, mark; uint32_t id; unsigned long size; char rest[200]; };
static int cmp(const void *a, const void *b) { return memcmp(a, b, sizeof(struct row)); }
/* words separated by one blank */
static void squeeze(const char *s, char *o)
{
    char *w = o;
    for (; *s && w < o + 190; s++) if (*s != ' ' || (w > o && w[-1] != ' ')) *w++ = *s;
    while (w > o && w[-1] == ' ') w--;
    *w = 0;
}
static int rows(struct row *r, int max)
{
    size_t n;
    uint8_t *b = mc_read_file(O, &n);
    char *s = malloc(n + 1), *w = s;
    for (size_t i = 0; i < n; i++) {
        if (b[i] == 27) { while (i < n && b[i] != 'm') i++; continue; }
        *w++ = b[i];
    }
    *w = 0;
    free(b);
    int k = 0;
    char sec = 0;
    for (char *l = strtok(s, "\n"); l; l = strtok(NULL, "\n")) {
        if (!strncmp(l, "Metadata:", 9)) { sec = 'm'; continue; }
        if (!strncmp(l, "Parts:", 6)) { sec = 'p'; continue; }
        if (!sec || !strchr("=+-*", l[0])) continue;
        struct row q;
        memset(&q, 0, sizeof q);
        q.sec = sec;
        q.mark = l[0];
        int e = 0;
        if (sscanf(l + 1, " %x %lu%n", &q.id, &q.size, &e) != 2) continue;
        squeeze(l + 1 + e, q.rest);
        if (k == max) mc_fail("too many rows");
        r[k++] = q;
    }
    free(s);
    qsort(r, k, sizeof *r, cmp);
    return k;
}
static struct row *add(struct row *r, int *k, char sec, char mark, uint32_t id, unsigned long size)
{
    struct row q;
    memset(&q, 0, sizeof q);
    q.sec = sec; q.mark = mark; q.id = id; q.size = size;
    r[*k] = q;
    return &r[(*k)++];
}
static void addm(struct row *r, int *k, char mark, const struct pu *x, const struct bpak_meta_header *m)
{
    char v[300], l[400];
    pu_meta_text(&x->h, m, v);
    snprintf(l, sizeof l, "%s %s", pu_meta_name(m->id), v);
    squeeze(l, add(r, k, 'm', mark, m->id, m->size)->rest);
}
static void addp(struct row *r, int *k, char mark, const struct bpak_part_header *p)
{
    sprintf(add(r, k, 'p', mark, p->id, p->size)->rest, "%u %c%c------ %lu", p->pad_bytes, p->flags & 1 ? 'h' : '-', p->flags & 2 ? 'T' : '-', (unsigned long)(p->flags & 2 ? p->transport_size : p->size));
}
static int want(const struct pu *a, const struct pu *b, struct row *r)
{
    int k = 0;
    for (int side = 0; side < 2; side++) {
        const struct pu *x = side ? b : a, *y = side ? a : b;
        for (int i = 0; i < 32 && x->h.meta[i].id; i++) {
            const struct bpak_meta_header *m = &x->h.meta[i], *f = NULL;
            for (int j = 0; j < 32 && y->h.meta[j].id; j++) if (y->h.meta[j].id == m->id && y->h.meta[j].part_id_ref == m->part_id_ref) f = &y->h.meta[j];
            if (side) { if (!f) addm(r, &k, '+', x, m); continue; }
            bool eq = f && f->size == m->size && !memcmp(x->h.metadata + m->offset, y->h.metadata + f->offset, m->size);
            addm(r, &k, !f ? '-' : eq ? '=' : '*', x, m);
        }
        for (int i = 0; i < 32 && x->h.parts[i].id; i++) {
            const struct bpak_part_header *p = &x->h.parts[i], *f = NULL;
            int fj = pu_find(&y->h, p->id);
            if (fj >= 0) f = &y->h.parts[fj];
            if (side) { if (!f) addp(r, &k, '+', p); continue; }
            bool eq = f && f->size == p->size && f->flags == p->flags && f->pad_bytes == p->pad_bytes && pu_stored(f) == pu_stored(p) &&
                      !memcmp(x->data + pu_offset(&x->h, i) - 4096, y->data + pu_offset(&y->h, fj) - 4096, pu_stored(p));
            addp(r, &k, !f ? '-' : eq ? '=' : '*', p);
        }
    }
    qsort(r, k, sizeof *r, cmp);
    return k;
}
static void text(const struct row *r, int k, char *o)
{
    *o = 0;
    for (int i = 0; i < k && i < 40; i++) sprintf(o + strlen(o), "%c %s %x/%lu %s, ", r[i].mark, r[i].sec == 'm' ? "metadata" : "part", r[i].id, r[i].size, r[i].rest);
}
static void check(const struct pu *a, const struct pu *b)
{
    static struct row w[140], g[140];
    static char wt[12000], gt[12000];
    int nw = want(a, b, w);
    int rc = tool(O, "compare", A, B, NULL);
    mc_eval(1);
    int ng = rows(g, 140);
    static struct row dw[140], dg[140]; /* rows only expected / only listed */
    int nd = 0, ne = 0, i = 0, j = 0;
    while (i < nw || j < ng) {
        int c = i == nw ? 1 : j == ng ? -1 : cmp(&w[i], &g[j]);
        if (c < 0) dw[nd++] = w[i++];
        else if (c > 0) dg[ne++] = g[j++];
        else i++, j++;
    }
    text(dw, nd, wt);
    text(dg, ne, gt);
    MC_CHECK(rc == 0, "compare exits %d", rc);
    MC_CHECK(nw == ng && !memcmp(w, g, nw * sizeof *w), "compare lists [%s] instead of [%s]", gt, wt);
    mc_distinct(mc_hash(w, nw * sizeof *w, nw));
    mc_state(mc_hash(&a->h, 4096, mc_hash(&b->h, 4096, mc_hash(a->data, a->len, mc_hash(b->data, b->len, 0)))));
}
/* ---- universe of metadata sets ---- */
static const struct { const char *d; size_t n; } mv[] = {{"value", 6}, {"valuf", 6}, {"xalue", 6}, {"value", 5}, {"value\0\0", 8}};
static void meta_pkg(struct pu *p, int v)
{
    int order = v % 2, a = v / 2 % 6, b = v / 12 % 4, c = v / 48 % 3;
    pu_init(p, 1 + (v % 3));
    for (int s = 0; s < 3; s++) {
        int k = order ? 2 - s : s;
        if (k == 0 && a) pu_meta(p, pu_id("one"), 0, mv[a - 1].d, mv[a - 1].n);
        if (k == 1 && b) pu_meta(p, pu_id("one"), pu_id("data"), mv[b - 1].d, mv[b - 1].n);
        if (k == 2 && c) pu_meta(p, pu_id("two"), 0, mv[c - 1].d, mv[c - 1].n);
    }
    pu_rehash(p);
}
#define NM (48 * 3)
/* ---- universe of part sets ---- */
static void one_part(struct pu *p, const char *name, int v)
{
    static uint8_t t[9001];
    memcpy(t, R, sizeof t);
    uint32_t id = pu_id(name);
    switch (v) {
    case 1: pu_part(p, id, t, 700, 0); break;
    case 2: t[699] ^= 1; pu_part(p, id, t, 700, 0); break;
    case 3: t[0] ^= 1; pu_part(p, id, t, 700, 0); break;
    case 4: t[700] = 0; pu_part(p, id, t, 701, 0); break; /* same bytes once padded */
    case 5: pu_part(p, id, t, 699, 0); break;
    case 6: pu_part(p, id, t, 9000, 0); break;
    case 7: t[4096] ^= 1; pu_part(p, id, t, 9000, 0); break;
    case 8: t[8999] ^= 0x80; pu_part(p, id, t, 9000, 0); break;
    case 9: pu_part(p, id, t, 0, 0); break;
    case 10: pu_part_t(p, id, t, 384, 700, 324, 0); break;
    case 11: t[383] ^= 1; pu_part_t(p, id, t, 384, 700, 324, 0); break;
    case 12: memset(t + 700, 0, 324); pu_part_t(p, id, t, 1024, 700, 324, 0); break; /* encoded form equal to the plain stored form */
    case 13: pu_part_t(p, id, t, 512, 700, 324, 0); break;
    case 14: pu_part_t(p, id, t, 640, 700, 324, 0); break; /* equal up to the padding */
    case 15: pu_part(p, id, t, 700, 1); break; /* only the flags differ */
    case 16: pu_part_t(p, id, t, 640, 700, 324, 1); break;
    case 17: pu_part_t(p, id, t, 640, 700, 836, 0); break; /* only the padding of the decoded form */
    }
}
static void part_pkg(struct pu *p, int v)
{
    static const int second[] = {0, 1, 2, 6};
    int order = v % 2, a = v / 2 % 18, b = v / 36 % 4;
    pu_init(p, 1);
    for (int s = 0; s < 2; s++) one_part(p, (s ^ order) ? "second" : "first", (s ^ order) ? second[b] : a);
    pu_rehash(p);
}
#define NP (36 * 4)
static void pairs(void (*mk)(struct pu *, int), int n, const char *what)
{
    for (int i = 0; i < n; i++) {
        if (!mc_mine()) continue;
        struct pu a, b;
        mk(&a, i);
        pu_save(&a, A);
        for (int j = 0; j < n; j++) {
            if (!mc_thorough && i % 3 && j % 3 == 1 && i != j) continue;
            mc_case("%s set %d against %s set %d", what, i, what, j);
            mk(&b, j);
            pu_save(&b, B);
            check(&a, &b);
            pu_free(&b);
        }
        mc_case("%s set %d against itself", what, i);
        strcpy(B, A);
        check(&a, &a);
        strcpy(B, mc_path("b"));
        pu_free(&a);
    }
}
/* presence of three metadata entries and three parts on each side */
static void subset(struct pu *p, int v)
{
    static const char *n[] = {"x", "y", "z"};
    pu_init(p, 1);
    for (int i = 0; i < 3; i++) if (v >> i & 1) pu_meta(p, pu_id(n[i]), 0, R + i, 9);
    for (int i = 0; i < 3; i++) if (v >> (3 + i) & 1) pu_part(p, pu_id(n[i]), R + 100 * i, 100, i == 1);
    pu_rehash(p);
}
static void positions(void)
{
    /* one differing byte at every position */
    static const int sz[] = {1, 127, 128, 700, 4095, 4096, 4097, 9000};
    for (int s = 0; s < 8; s++)
        for (int o = 0; o < sz[s]; o++) {
            if (!mc_thorough && sz[s] > 4000 && o > 10 && o < sz[s] - 10 && o % 11 && (o + 1) % 4096 > 2) continue;
            if (!mc_mine()) continue;
            struct pu a, b;
            pu_init(&a, 1);
            pu_part(&a, pu_id("before"), R, 130, 0);
            pu_part(&a, pu_id("data"), R, sz[s], 0);
            pu_rehash(&a);
            pu_init(&b, 1);
            pu_part(&b, pu_id("data"), R, sz[s], 0);
            b.data[o] ^= 1 << (o % 8);
            pu_rehash(&b);
            pu_save(&a, A);
            pu_save(&b, B);
            mc_case("%d byte parts differing in byte %d", sz[s], o);
            check(&a, &b);
            pu_free(&a);
            pu_free(&b);
        }
    static const int mz[] = {1, 2, 8, 16, 63, 64, 300, 1920};
    for (int s = 0; s < 8; s++)
        for (int o = 0; o < mz[s]; o++) {
            if (!mc_mine()) continue;
            struct pu a, b;
            pu_init(&a, 1);
            if (mz[s] < 1000) pu_meta(&a, pu_id("before"), 0, R, 30);
            pu_meta(&a, pu_id("m"), 0, R, mz[s]);
            pu_rehash(&a);
            pu_init(&b, 1);
            pu_meta(&b, pu_id("m"), 0, R, mz[s]);
            b.h.metadata[b.h.meta[0].offset + o] ^= 1 << (o % 8);
            pu_rehash(&b);
            pu_save(&a, A);
            pu_save(&b, B);
            mc_case("%d byte metadata differing in byte %d", mz[s], o);
            check(&a, &b);
            pu_free(&a);
            pu_free(&b);
        }
}
/* entries of all kinds: kind k present in version 0 or 1 of its value, or absent, after and before an entry of another kind */
static const struct { const char *n; int sz; } KIND[] = {{"bpak-key-id", 4}, {"bpak-key-store", 4}, {"bpak-package", 16}, {"bpak-transport", 32}, {"merkle-salt", 32}, {"merkle-root-hash", 32}, {"pb-load-addr", 8}, {"bpak-version", 6},
    {"keystore-provider-id", 4}, {"other", 13}, {"bpak-key-id", 3}, {"bpak-package", 15}, {"bpak-transport", 7}, {"merkle-salt", 31}, {"merkle-root-hash", 1}, {"pb-load-addr", 7}, {"keystore-provider-id", 2}, {"bpak-version", 127}, {"bpak-version", 128}};
#define NKIND ((int)(sizeof KIND / sizeof *KIND))
static void kval(struct pu *p, int k, int v)
{
    uint8_t d[200];
    for (int i = 0; i < KIND[k].sz; i++) d[i] = !strcmp(KIND[k].n, "bpak-version") ? 'a' + (i + v + k) % 26 : R[k * 40 + i] ^ (i == KIND[k].sz - 1 ? v : 0);
    pu_meta(p, pu_id(KIND[k].n), 0, d, KIND[k].sz);
}
static void kinds(void)
{
    for (int k = 0; k < NKIND; k++)
        for (int l = 0; l < NKIND; l++) {
            if (!strcmp(KIND[k].n, KIND[l].n)) continue;
            if (!mc_mine()) continue;
            for (int v = 0; v < 3; v++)
                for (int w = 0; w < 3; w++)
                    for (int s = 0; s < 4; s++) {
                        struct pu a, b;
                        mc_case("kind %d (%d and %d) with kind %d (%d)", k, v, w, l, s);
                        pu_init(&a, 1); pu_init(&b, 1);
                        if (s & 1) kval(&a, l, 0);
                        if (v < 2) kval(&a, k, v);
                        if (w < 2) kval(&b, k, w);
                        if (s & 2) kval(&b, l, 1);
                        pu_save(&a, A); pu_save(&b, B);
                        check(&a, &b);
                        pu_free(&a); pu_free(&b);
                    }
        }
}
static void full(struct pu *p, int v)
{
    /* nearly full tables, ids shifted by v */
    pu_init(p, 1);
    int nm = v < 4 ? 32 : 31 - v, np = v < 4 ? 32 : 20 + v;
    for (int i = 0; i < nm; i++) { char n[20]; sprintf(n, "m%d", (i + v * 3) % 40); pu_meta(p, pu_id(n), i % 3 == 0 ? pu_id("p1") : 0, R + (v == 2 && i == 31), 20 + i % 2); }
    for (int i = 0; i < np; i++) { char n[20]; sprintf(n, "p%d", (i + v * 3) % 40); pu_part(p, pu_id(n), R + (v == 2 && i == 31), 50 + i % 3, (i + v * 3) % 40 % 4 == 0); }
    pu_rehash(p);
}
/* encoded parts of every stored size differing in one of the last bytes; big parts of one value differing in one byte */
static void tails(void)
{
    for (int n = 1; n <= 40; n++)
        for (int at = 1; at <= n && at <= 17; at++)
            for (int after = 0; after < 2; after++) {
                if (!mc_mine()) continue;
                struct pu a, b;
                mc_case("encoded parts of %d bytes differing in the byte %d from the end%s", n, at, after ? ", followed by another part" : "");
                pu_init(&a, 1); pu_init(&b, 1);
                pu_part_t(&a, pu_id("data"), R, n, 700, 324, 0);
                pu_part_t(&b, pu_id("data"), R, n, 700, 324, 0);
                if (after) { pu_part(&a, pu_id("after"), R + 99, 100, 0); pu_part(&b, pu_id("after"), R + 99, 100, 0); }
                b.data[n - at] ^= 1 << (at % 8);
                pu_rehash(&a); pu_rehash(&b);
                pu_save(&a, A); pu_save(&b, B);
                check(&a, &b);
                pu_free(&a); pu_free(&b);
            }
    static uint8_t z[300000];
    int step = mc_thorough ? 997 : 4001;
    for (int enc = 0; enc < 2; enc++)
        for (int o = 0; o < (int)sizeof z; o += step) {
            if (!mc_mine()) continue;
            struct pu a, b;
            mc_case("%s part of %zu zeroes, one of them with another byte at %d", enc ? "encoded" : "plain", sizeof z, o);
            pu_init(&a, 1); pu_init(&b, 1);
            if (enc) { pu_part_t(&a, pu_id("data"), z, sizeof z, 700, 324, 0); pu_part_t(&b, pu_id("data"), z, sizeof z, 700, 324, 0); }
            else { pu_part(&a, pu_id("data"), z, sizeof z, 0); pu_part(&b, pu_id("data"), z, sizeof z, 0); }
            b.data[o] = 1;
            pu_rehash(&a); pu_rehash(&b);
            pu_save(&a, A); pu_save(&b, B);
            check(&a, &b);
            pu_free(&a); pu_free(&b);
        }
}
int mc_run(void)
{
    pu_inproc = true;
    pu_fill(R, sizeof R, 31);
    strcpy(A, mc_path("a"));
    strcpy(B, mc_path("b"));
    strcpy(O, mc_path("out"));
    pairs(meta_pkg, NM, "metadata");
    pairs(part_pkg, NP, "part");
    pairs(subset, 64, "presence");
    pairs(full, 8, "full table");
    kinds();
    positions();
    tails();
    return 0;
}
