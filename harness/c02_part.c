/* C02: part table against an ordered list, all operation sequences. */
#include "mc.h"
#include <bpak/bpak.h>

struct pe { uint32_t id; uint64_t size, tsize, offset; uint16_t pad; uint8_t flags; };
static struct pe L[40];
static int n;
static struct bpak_header H;
static uint8_t before[sizeof H];
struct op { int k; uint32_t id; int v; };
enum { ADD, DEL };
/* variants of part content: size, pad, flags, transport size */
static const struct pe var[] = {
    {0, 512, 0, 0, 0, 0}, {0, 1000, 0, 0, 24, 0}, {0, 0, 0, 0, 0, 1},
    {0, 3000, 77, 0, 72, 2}, {0, 5368709120ull, 4294967297ull, 0, 0, 3}, {0, 5368709111ull, 1234567, 0, 9, 1},
};
#define NV 6

static void init(void)
{
    bpak_init_header(&H);
    for (int i = 0; i < 32; i++) { H.meta[i].id = 0x70000000 + i; H.meta[i].size = 60; H.meta[i].offset = i * 60; H.meta[i].part_id_ref = i; }
    memset(H.metadata, 0xEE, sizeof H.metadata);
    memset(H.payload_hash, 0xA5, 64);
    H.key_id = 0x11223344; H.keystore_id = 5;
    memset(H.signature, 0x5A, sizeof H.signature);
    H.signature_sz = 71;
    n = 0;
}
static uint64_t stored(const struct pe *e) { return (e->flags & 2) ? e->tsize : e->size + e->pad; }

static void check(void)
{
    struct bpak_header *b = (struct bpak_header *)before;
    size_t p0 = offsetof(struct bpak_header, parts), p1 = offsetof(struct bpak_header, metadata);
    MC_CHECK(!memcmp(&H, b, p0) && !memcmp((uint8_t *)&H + p1, before + p1, sizeof H - p1), "part operation changed bytes outside the part table");
    uint64_t off = 4096;
    for (int i = 0; i < n; i++) {
        struct bpak_part_header *p = NULL;
        MC_CHECK(bpak_get_part(&H, L[i].id, &p) == BPAK_OK && p, "live part %x not found", L[i].id);
        MC_CHECK(p == &H.parts[i], "part %x is not at position %d", L[i].id, i);
        MC_CHECK(p->id == L[i].id && p->size == L[i].size && p->pad_bytes == L[i].pad && p->flags == L[i].flags &&
                 p->transport_size == L[i].tsize && p->offset == L[i].offset && p->pad == 0, "part %x descriptor changed", L[i].id);
        MC_CHECK((uint64_t)bpak_part_offset(&H, p) == off, "part %x offset %llu expected %llu", L[i].id,
                 (unsigned long long)bpak_part_offset(&H, p), (unsigned long long)off);
        MC_CHECK(bpak_part_size(p) == stored(&L[i]), "part %x stored size %zu expected %llu", L[i].id, bpak_part_size(p), (unsigned long long)stored(&L[i]));
        MC_CHECK(bpak_part_size_wo_pad(p) == ((L[i].flags & 2) ? L[i].tsize : L[i].size), "part %x data size wrong", L[i].id);
        off += stored(&L[i]);
    }
    static const uint8_t zero[32];
    for (int i = n; i < 32; i++) MC_CHECK(!memcmp(&H.parts[i], zero, 32), "free slot %d is not zero", i);
    struct bpak_part_header *p0h = NULL;
    MC_CHECK(bpak_get_part(&H, 0, &p0h) != BPAK_OK, "lookup of id zero returned a free slot");
}
static int find(uint32_t id) { for (int i = 0; i < n; i++) if (L[i].id == id) return i; return -1; }

static void apply(const struct op *o, bool chk)
{
    struct bpak_part_header *p = NULL;
    if (chk) memcpy(before, &H, sizeof H);
    int i = find(o->id);
    if (o->k == DEL) {
        int rc = bpak_get_part(&H, o->id, &p);
        MC_CHECK((rc == BPAK_OK) == (i >= 0), "lookup of part %x returned %d", o->id, rc);
        if (i < 0) {
            MC_CHECK(rc == -BPAK_NOT_FOUND, "lookup of absent part returned %d", rc);
            return;
        }
        bpak_del_part(&H, p);
        memmove(&L[i], &L[i + 1], sizeof(L[0]) * (n - i - 1));
        n--;
        if (chk) MC_CHECK(bpak_get_part(&H, o->id, &p) == -BPAK_NOT_FOUND, "deleted part still found");
    } else {
        int rc = bpak_add_part(&H, o->id, &p);
        if (!o->id || i >= 0 || n == 32) {
            if (!o->id) MC_CHECK(rc < 0, "a part with id zero was added");
            else MC_CHECK(rc == (i >= 0 ? -BPAK_EXISTS : -BPAK_NO_SPACE_LEFT), "add of part %x returned %d", o->id, rc);
            if (chk) MC_CHECK(!memcmp(before, &H, sizeof H), "refused part add modified the header");
            return;
        }
        MC_CHECK(rc == BPAK_OK && p == &H.parts[n], "add of part %x failed (%d)", o->id, rc);
        static const uint8_t zero[28];
        MC_CHECK(p->id == o->id && !memcmp((uint8_t *)p + 4, zero, 28), "new part descriptor is not clean");
        struct pe *e = &L[n++];
        *e = var[o->v];
        e->id = o->id;
        e->offset = 0x9000 + o->id;
        p->size = e->size; p->pad_bytes = e->pad; p->flags = e->flags; p->transport_size = e->tsize; p->offset = e->offset;
    }
}
static struct op al[64], st[40];
static int na, ns;

static void bfs(int depth, const char *name)
{
    typedef struct { uint8_t n, o[10]; } hist;
    size_t cap = 1 << 12, capn = 1 << 12, nf = 1, nn;
    hist *cur = calloc(cap, sizeof *cur), *nx = calloc(capn, sizeof *nx);
    for (int d = 0; d < depth && nf; d++) {
        nn = 0;
        for (size_t f = 0; f < nf; f++)
            for (int a = 0; a < na; a++) {
                if (d == 0 && a % mc_nshards != mc_shard) continue;
                mc_case("start=%s:", name);
                init();
                for (int i = 0; i < ns; i++) apply(&st[i], false);
                for (int i = 0; i < cur[f].n; i++) { struct op *o = &al[cur[f].o[i]]; mc_case_add(" %s(%x,v%d)", o->k ? "del" : "add", o->id, o->v); apply(o, false); }
                mc_case_add(" %s(%x,v%d)", al[a].k ? "del" : "add", al[a].id, al[a].v);
                apply(&al[a], true);
                check();
                mc_trans(1); mc_eval(1);
                if (mc_state(mc_hash(&H, sizeof H, 2)) && d + 1 < depth) {
                    if (nn == capn) { capn *= 2; nx = realloc(nx, capn * sizeof *nx); if (!nx) mc_die("oom"); }
                    nx[nn] = cur[f]; nx[nn].o[nx[nn].n++] = a; nn++;
                }
            }
        hist *t = cur; cur = nx; nx = t; size_t c = cap; cap = capn; capn = c; nf = nn;
    }
    free(cur); free(nx);
}
static void A(int k, uint32_t id, int v) { al[na++] = (struct op){k, id, v}; }

int mc_run(void)
{
    uint32_t ids[] = {0xffffffff, 1, 0x0a000003, 0x0b000004};
    na = ns = 0;
    for (int i = 0; i < 4; i++) A(DEL, ids[i], 0);
    for (int v = 0; v < NV; v++) for (int i = 0; i < (v < 2 ? 4 : 3); i++) A(ADD, ids[i], v);
    A(ADD, 0, 1);
    bfs(mc_thorough ? 6 : 5, "empty");
    for (int fill = 30; fill <= 32; fill++) {
        ns = na = 0;
        for (int i = 0; i < fill; i++) st[ns++] = (struct op){ADD, 0xf0000000u + i, i % NV};
        int del[] = {0, 1, fill / 2, fill - 2, fill - 1};
        for (int i = 0; i < 5; i++) A(DEL, 0xf0000000u + del[i], 0);
        for (int i = 0; i < 3; i++) { A(ADD, ids[i], 1); A(ADD, ids[i], 4); A(DEL, ids[i], 0); }
        A(ADD, 0, 1);
        char nm[16]; snprintf(nm, 16, "fill%d", fill);
        bfs(mc_thorough ? 6 : 5, nm);
    }
    return 0;
}
