/* C01: metadata table against an ordered-map reference, every operation sequence
 * up to a depth from several start states, plus complete size sweeps. */
#include "mc.h"
#include <bpak/bpak.h>
#include <bpak/id.h>

struct ent { uint32_t id, ref; uint16_t size; uint8_t data[1920]; };
struct model { int n; struct ent e[33]; };
enum { ADD, ADDW, DEL, TADD };
struct op { int k; uint32_t id, ref; uint32_t size; };

static struct bpak_header H;
static struct model M;
static uint8_t before[sizeof(struct bpak_header)];

static uint8_t pat(uint32_t id, uint32_t ref, int i) { return (uint8_t)(1 + ((id * 37 + ref * 101 + i * 7) % 255)); }

static void init_hdr(void)
{
    bpak_init_header(&H);
    /* recognisable content everywhere outside the metadata tables */
    for (int i = 0; i < BPAK_MAX_PARTS; i++) {
        H.parts[i].id = 0x51000000u + i;
        H.parts[i].size = 512 * (i + 1);
        H.parts[i].offset = 4096 + i;
        H.parts[i].transport_size = 77 + i;
        H.parts[i].flags = i & 3;
    }
    memset(H.payload_hash, 0xA5, sizeof H.payload_hash);
    H.key_id = 0x11223344;
    H.keystore_id = 0x55667788;
    memset(H.signature, 0x5A, sizeof H.signature);
    H.signature_sz = 71;
    M.n = 0;
}

static size_t al(size_t x) { return (x + 7) & ~(size_t)7; }
static int find(uint32_t id, uint32_t ref)
{
    for (int i = 0; i < M.n; i++) if (M.e[i].id == id && M.e[i].ref == ref) return i;
    return -1;
}
static size_t used(void)
{
    size_t u = 0;
    for (int i = 0; i < M.n; i++) u += al(M.e[i].size);
    return u;
}

static void frame_check(void)
{
    struct bpak_header *b = (struct bpak_header *)before;
    MC_CHECK(H.magic == b->magic && !memcmp(H.pad0, b->pad0, 4), "magic/pad changed");
    MC_CHECK(!memcmp(H.parts, b->parts, sizeof H.parts), "part table changed by a metadata operation");
    size_t tail = offsetof(struct bpak_header, hash_kind);
    MC_CHECK(!memcmp((uint8_t *)&H + tail, before + tail, sizeof H - tail), "header field after the metadata area changed");
}

static void full_check(void)
{
    static uint8_t cover[1920];
    memset(cover, 0, sizeof cover);
    for (int i = 0; i < M.n; i++) {
        struct bpak_meta_header *m = NULL;
        int rc = bpak_get_meta(&H, M.e[i].id, M.e[i].ref, &m);
        MC_CHECK(rc == BPAK_OK && m, "live entry %x/%x not found (rc=%d)", M.e[i].id, M.e[i].ref, rc);
        MC_CHECK(m >= H.meta && m < H.meta + 32, "lookup returned a pointer outside the table");
        MC_CHECK(m->id == M.e[i].id && m->part_id_ref == M.e[i].ref, "lookup returned the wrong entry");
        MC_CHECK(m->size == M.e[i].size, "entry %x/%x has size %u, expected %u", m->id, m->part_id_ref, m->size, M.e[i].size);
        MC_CHECK(m->offset % 8 == 0, "entry %x offset %u not aligned", m->id, m->offset);
        MC_CHECK(m->offset + m->size <= 1920, "entry %x outside the metadata area", m->id);
        for (int k = 0; k < m->size; k++) {
            MC_CHECK(!cover[m->offset + k], "entry %x/%x overlaps another entry at byte %d", m->id, m->part_id_ref, k);
            cover[m->offset + k] = 1;
        }
        MC_CHECK(!memcmp(bpak_get_meta_ptr(&H, m, uint8_t), M.e[i].data, m->size),
                 "entry %x/%x content changed: got %s expected %s", m->id, m->part_id_ref,
                 mc_hex(bpak_get_meta_ptr(&H, m, uint8_t), m->size), mc_hex(M.e[i].data, m->size));
        struct bpak_meta_header *a = NULL;
        MC_CHECK(bpak_get_meta_anyref(&H, M.e[i].id, &a) == BPAK_OK && a && a->id == M.e[i].id,
                 "anyref lookup of a live id failed");
    }
    int live = 0;
    static const struct bpak_meta_header none;
    for (int i = 0; i < 32; i++)
        if (H.meta[i].id) live++;
        else MC_CHECK(!memcmp(&H.meta[i], &none, sizeof none), "free slot %d keeps values of a deleted entry", i);
    MC_CHECK(live == M.n, "table holds %d entries, expected %d", live, M.n);
    for (int i = 0; i < 1920; i++)
        MC_CHECK(cover[i] || !H.metadata[i], "byte %d of the metadata area is residue (0x%02x) of a deleted entry", i, H.metadata[i]);
    MC_CHECK(bpak_valid_header(&H) == BPAK_OK || H.parts[0].id, "header not valid");
    struct bpak_meta_header *z;
    MC_CHECK(bpak_get_meta(&H, 0, 0, &z) != BPAK_OK && bpak_get_meta_anyref(&H, 0, &z) != BPAK_OK, "lookup of id zero returned an unused slot");
}

static void absent_check(uint32_t id, uint32_t ref)
{
    struct bpak_meta_header *m = (void *)1;
    int rc = bpak_get_meta(&H, id, ref, &m);
    MC_CHECK(rc == -BPAK_NOT_FOUND, "lookup of absent %x/%x returned %d", id, ref, rc);
    bool any = false;
    for (int i = 0; i < M.n; i++) any |= M.e[i].id == id;
    rc = bpak_get_meta_anyref(&H, id, &m);
    MC_CHECK((rc == BPAK_OK) == any, "anyref lookup of %x returned %d", id, rc);
}

static void do_op(const struct op *o, bool check)
{
    struct bpak_meta_header *m = NULL;
    if (check) memcpy(before, &H, sizeof H);
    if (o->k == DEL) {
        int i = find(o->id, o->ref);
        if (i < 0) return;
        int rc = bpak_get_meta(&H, o->id, o->ref, &m);
        MC_CHECK(rc == BPAK_OK, "live entry %x/%x not found before delete", o->id, o->ref);
        bpak_del_meta(&H, m);
        memmove(&M.e[i], &M.e[i + 1], sizeof(M.e[0]) * (M.n - i - 1));
        M.n--;
        if (check) absent_check(o->id, o->ref);
    } else {
        bool dup = find(o->id, o->ref) >= 0;
        bool fits = M.n < 32 && used() + o->size <= 1920;
        int rc = o->k == TADD ? bpak_add_transport_meta(&H, o->ref, 0x11111111u, 0x22222222u)
                              : bpak_add_meta(&H, o->id, o->ref, (uint16_t)o->size, &m);
        if (!o->id || dup || !fits) {
            MC_CHECK(rc < 0, "add of %x/%x size %u accepted although %s", o->id, o->ref, o->size, dup ? "it exists" : !o->id ? "zero is not an id" : "it does not fit");
            if (check)
                MC_CHECK(!memcmp(before, &H, sizeof H), "refused add of %x/%x size %u (rc=%d) modified the header", o->id, o->ref, o->size, rc);
            if (!o->id) ;
            else if (dup) MC_CHECK(rc == -BPAK_EXISTS || !fits, "duplicate add returned %d", rc);
            else MC_CHECK(rc == -BPAK_NO_SPACE_LEFT, "add without room returned %d", rc);
            return;
        }
        MC_CHECK(rc == BPAK_OK, "add of %x/%x size %u refused (%d) although it fits (%d entries, %zu bytes used)",
                 o->id, o->ref, o->size, rc, M.n, used());
        struct ent *e = &M.e[M.n++];
        e->id = o->id;
        e->ref = o->ref;
        e->size = o->size;
        memset(e->data, 0, sizeof e->data);
        if (o->k == TADD) {
            uint32_t v[2] = {0x11111111u, 0x22222222u};
            memcpy(e->data, v, 8);
            return;
        }
        MC_CHECK(m >= H.meta && m < H.meta + 32 && m->id == o->id && m->part_id_ref == o->ref && m->size == o->size,
                 "add returned a wrong entry");
        if (check) full_check(); /* new space must read as zero */
        if (o->k == ADDW)
            for (unsigned i = 0; i < o->size; i++)
                e->data[i] = bpak_get_meta_ptr(&H, m, uint8_t)[i] = pat(o->id, o->ref, i);
    }
}

static void show(const struct op *o)
{
    static const char *nm[] = {"add", "addw", "del", "tadd"};
    mc_case_add(" %s(%x,%x,%u)", nm[o->k], o->id, o->ref, o->size);
}

static void step_checked(const struct op *o)
{
    do_op(o, true);
    frame_check();
    full_check();
    mc_trans(1);
}

/* ---- explicit-state search ---- */
static struct op alpha[128];
static int n_alpha;
static void A(int k, uint32_t id, uint32_t ref, uint32_t size) { alpha[n_alpha++] = (struct op){k, id, ref, size}; }

static struct op start_ops[64];
static int n_start;
static const char *start_name;

static void build_start(void)
{
    init_hdr();
    for (int i = 0; i < n_start; i++) do_op(&start_ops[i], false);
}

static void bfs(int depth)
{
    /* frontier of operation histories (indices into alpha) */
    typedef struct { uint8_t n, o[12]; } hist;
    size_t cap = 1 << 16, nf = 0, nn;
    hist *cur = malloc(cap * sizeof *cur), *nxt = malloc(cap * sizeof *nxt);
    size_t capn = cap;
    cur[nf++] = (hist){0};
    for (int d = 0; d < depth && nf; d++) {
        nn = 0;
        for (size_t f = 0; f < nf; f++) {
            for (int a = 0; a < n_alpha; a++) {
                /* first operation selects the shard (d==0), later levels own their prefix */
                if (d == 0 && (a % mc_nshards) != mc_shard) continue;
                mc_case("start=%s:", start_name);
                build_start();
                for (int i = 0; i < cur[f].n; i++) { show(&alpha[cur[f].o[i]]); do_op(&alpha[cur[f].o[i]], false); }
                show(&alpha[a]);
                step_checked(&alpha[a]);
                mc_eval(1);
                if (mc_state(mc_hash(&H, sizeof H, 1)) && d + 1 < depth) {
                    if (nn == capn) { capn *= 2; nxt = realloc(nxt, capn * sizeof *nxt); if (!nxt) mc_die("oom"); }
                    nxt[nn] = cur[f];
                    nxt[nn].o[nxt[nn].n++] = a;
                    nn++;
                    if (nn == 5000) mc_sample("history from %s of length %d reaching a new state, last op index %d", start_name, d + 1, a);
                }
            }
        }
        hist *t = cur; size_t tc = cap;
        cur = nxt; cap = capn; nxt = t; capn = tc;
        nf = nn;
    }
    free(cur);
    free(nxt);
}

int mc_run(void)
{
    const uint32_t ids[] = {0xaaaa0001, 0xbbbb0002, 0xcccc0003}, refs[] = {0, 0x51000001};
    const uint32_t sz[] = {0, 1, 8, 9, 24, 40};
    /* 1. empty table */
    n_alpha = 0;
    for (int i = 0; i < 3; i++)
        for (int r = 0; r < 2; r++) A(DEL, ids[i], refs[r], 0);
    for (int s = 0; s < 6; s++)
        for (int i = 0; i < 3; i++)
            for (int r = 0; r < (i == 0 ? 2 : 1); r++) A(ADDW, ids[i], refs[r], sz[s]);
    A(ADD, ids[2], refs[1], 16);
    A(TADD, BPAK_ID_BPAK_TRANSPORT, refs[1], 32);
    A(ADDW, 0, 0, 8);
    A(ADDW, 0, refs[1], 0);
    A(DEL, BPAK_ID_BPAK_TRANSPORT, refs[1], 0);
    start_name = "empty";
    n_start = 0;
    bfs(mc_thorough ? 5 : 4);
    /* 2. slots nearly / completely full */
    for (int fill = 30; fill <= 32; fill++) {
        n_start = 0;
        for (int i = 0; i < fill; i++) start_ops[n_start++] = (struct op){ADDW, 0xf0000000u + i, i % 3 ? 0 : 0x51000002, (i % 5) * 9 + 1};
        n_alpha = 0;
        int del[] = {0, 1, fill / 2, fill - 2, fill - 1};
        for (int i = 0; i < 5; i++) A(DEL, 0xf0000000u + del[i], del[i] % 3 ? 0 : 0x51000002, 0);
        for (int i = 0; i < 2; i++) { A(DEL, ids[i], 0, 0); A(ADDW, ids[i], 0, 3); A(ADDW, ids[i], 0, 33); }
        A(ADDW, 0xf0000001u, 0, 8);
        char nm[16];
        snprintf(nm, sizeof nm, "fill%d", fill);
        start_name = nm;
        bfs(mc_thorough ? 6 : 5);
    }
    /* 3. space nearly full */
    for (int v = 0; v < 3; v++) {
        const int big[3] = {1880, 1896, 1911};
        n_start = 0;
        start_ops[n_start++] = (struct op){ADDW, 0xf0000000u, 0, big[v]};
        n_alpha = 0;
        A(DEL, 0xf0000000u, 0, 0);
        for (int i = 0; i < 2; i++) {
            A(DEL, ids[i], 0, 0);
            int s2[] = {0, 1, 7, 8, 9, 16, 24, 25, 40, 1872, 1920, 1921, 65535};
            for (unsigned s = 0; s < sizeof s2 / sizeof *s2; s++) A(ADDW, ids[i], 0, s2[s]);
        }
        start_name = v == 0 ? "big1880" : v == 1 ? "big1896" : "big1911";
        bfs(4);
    }
    /* 4. complete size sweeps: three entries of every size, delete each, re-add */
    int lim = mc_thorough ? 130 : 48;
    for (int a = 0; a <= lim; a++) {
        if (!mc_mine()) continue;
        for (int b = 0; b <= lim; b++)
            for (int c = 0; c <= lim; c++)
                for (int d = 0; d < 3; d++) {
                    struct op s[] = {{ADDW, ids[0], 0, a}, {ADDW, ids[1], 0, b}, {ADDW, ids[2], 0, c}, {DEL, ids[d], 0, 0}, {ADDW, ids[d], 7, a}};
                    mc_case("sweep sizes %d,%d,%d delete %d re-add", a, b, c, d);
                    init_hdr();
                    for (int i = 0; i < 3; i++) do_op(&s[i], false);
                    step_checked(&s[3]);
                    step_checked(&s[4]);
                    mc_eval(1);
                    mc_state(mc_hash(&H, sizeof H, 1));
                }
    }
    /* 5. complete boundary sweep: first entry of every size, second around the remaining space */
    for (int a = 0; a <= 1920; a++) {
        if (!mc_mine()) continue;
        for (int d = -9; d <= 9; d++) {
            int b = 1920 - (int)al(a) + d;
            if (b < 0) continue;
            struct op s[] = {{ADDW, ids[0], 0, a}, {ADDW, ids[1], 0, b}, {DEL, ids[0], 0, 0}, {ADDW, ids[0], 0, a}};
            mc_case("boundary sizes %d,%d", a, b);
            init_hdr();
            for (int i = 0; i < 4; i++) step_checked(&s[i]);
            mc_eval(1);
            mc_state(mc_hash(&H, sizeof H, 1));
        }
    }
    return 0;
}
