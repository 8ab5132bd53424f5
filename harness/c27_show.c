/* C27: the tool's listing and queries report exactly what the archive holds.
 *
 * The whole standard output of `bpak show` is compared with a listing made from the archive by
 * an independent renderer, for every package of a bounded family; queries likewise. */
#include "mc.h"
#include "pu.h"
#include <unistd.h>
#include <sys/stat.h>

static uint8_t R[8192];
static char F[300], O[300];
static const char HX[] = "0123456789abcdef";
static const char *const HK[] = {"Unknown", "sha256", "sha384", "sha512"}, *const SK[] = {"Unknown", "rsa4096", "prime256v1", "secp384r1", "secp521r1"};

static size_t dl(int k) { return k == 1 ? 32 : k == 2 ? 48 : 64; }
static void hexs(const uint8_t *d, size_t n, char *o)
{
    for (size_t i = 0; i < n; i++) { o[2 * i] = HX[d[i] >> 4]; o[2 * i + 1] = HX[d[i] & 15]; }
    o[2 * n] = 0;
}

/* ---- entries ---- */
static const struct mt { const char *name; int size; bool listed; } MT[] = {
    {"bpak-key-id", 4, false}, {"bpak-key-store", 4, false}, {"bpak-package", 16, true}, {"bpak-transport", 32, true},
    {"merkle-salt", 32, true}, {"merkle-root-hash", 32, true}, {"pb-load-addr", 8, true}, {"bpak-version", 6, true},
    {"keystore-provider-id", 4, true}, {"some-other-thing", 13, false},
    /* too short for the kind */
    {"bpak-key-id", 3, false}, {"bpak-package", 15, true}, {"bpak-transport", 7, true}, {"merkle-salt", 31, true},
    {"merkle-root-hash", 1, true}, {"pb-load-addr", 7, true}, {"keystore-provider-id", 2, true},
    /* longest value that is shown, first that is not; empty, with an embedded end */
    {"bpak-version", 127, true}, {"bpak-version", 128, true}, {"bpak-version", 1, true}, {"bpak-version", 9, true},
    {"bpak-package", 40, true}, {"pb-load-addr", 100, true},
};
#define NMT ((int)(sizeof MT / sizeof *MT))
static void value(int t, int salt, uint8_t *d)
{
    const struct mt *m = &MT[t];
    for (int i = 0; i < m->size; i++) d[i] = R[(t * 41 + salt * 7 + i) % 8192];
    if (!strcmp(m->name, "bpak-version")) {
        for (int i = 0; i < m->size; i++) d[i] = "0123456789.-abcXYZ%"[(i * 5 + salt + t) % 19];
        if (t == 19) d[0] = 0;
        if (t == 20) d[4] = 0;
    }
    if (!strcmp(m->name, "pb-load-addr") && salt == 1) memset(d + 1, 0, m->size - 1);
    if (!strcmp(m->name, "bpak-key-id") && salt == 1) memset(d + 1, 0, m->size - 1);
}
/* ---- the expected listing ---- */
static size_t listing(const struct pu *p, int verbose, char *o)
{
    char *s = o, t[300];
    uint8_t ph[64], dg[64];
    const struct bpak_header *h = &p->h;
    s += sprintf(s, "BPAK File: %s\n\nHash:        %s\nSignature:   %s\nKey ID:      %08x\nKeystore ID: %08x\n", F,
                 h->hash_kind < 4 ? HK[h->hash_kind] : HK[0], h->signature_kind < 5 ? SK[h->signature_kind] : SK[0], h->key_id, h->keystore_id);
    s += sprintf(s, "\nMetadata:\n    ID         Size   Meta ID              Part Ref   Data\n");
    unsigned used = 0;
    for (int i = 0; i < 32; i++) {
        const struct bpak_meta_header *m = &h->meta[i];
        if (!m->id) continue;
        used += m->size;
        pu_meta_text(h, m, t);
        s += sprintf(s, "    %08x   %-3u    %-20s ", m->id, m->size, pu_meta_name(m->id));
        if (m->part_id_ref) s += sprintf(s, "%08x", m->part_id_ref); else s += sprintf(s, "%8s", "");
        s += sprintf(s, "   %s\n", t);
    }
    s += sprintf(s, "\nParts:\n    ID         Size         Z-pad  Flags          Transport Size\n");
    unsigned long ts = 4096, is = 0;
    for (int i = 0; i < 32; i++) {
        const struct bpak_part_header *q = &h->parts[i];
        if (!q->id) continue;
        s += sprintf(s, "    %08x   %-12lu %-3u    %c%c------       %-12lu\n", q->id, (unsigned long)q->size, q->pad_bytes,
                     q->flags & 1 ? 'h' : '-', q->flags & 2 ? 'T' : '-', (unsigned long)(q->flags & 2 ? q->transport_size : q->size));
        ts += pu_stored(q);
        is += q->size + q->pad_bytes;
    }
    struct bpak_header c = *h;
    pu_payload_digest(h, p->data, ph);
    size_t l = dl(h->hash_kind);
    memcpy(c.payload_hash, ph, l);
    pu_header_digest(&c, dg);
    hexs(dg, l, t);
    s += sprintf(s, "\nHeader hash:  %s\n", t);
    hexs(ph, l, t);
    s += sprintf(s, "Payload hash: %s\n", t);
    if (memcmp(ph, h->payload_hash, l)) s += sprintf(s, "Warning: Computed payload hash does not match payload hash in header\n");
    if (verbose) s += sprintf(s, "Metadata usage: %u/1920 bytes\nTransport size: %lu bytes\nInstalled size: %lu bytes\n", used, ts, is);
    return s - o;
}
static char *out(size_t *n)
{
    char *b = (char *)mc_read_file(O, n);
    if (!b) mc_die("no output file");
    b[*n] = 0;
    return b;
}
static void unchanged(const struct pu *p)
{
    size_t n;
    uint8_t *b = mc_read_file(F, &n);
    MC_CHECK(b && n == 4096 + p->len && !memcmp(b, &p->h, 4096) && (!p->len || !memcmp(b + 4096, p->data, p->len)), "the archive changed");
    free(b);
}
static void differ(const char *got, const char *want)
{
    size_t i = 0, s;
    while (got[i] && got[i] == want[i]) i++;
    for (s = i; s > 0 && got[s - 1] != '\n'; ) s--;
    mc_fail("the listing differs: has '%.160s', expected '%.160s'", got + s, want + s);
}
/* with -v there are diagnostics in between: the lines of the listing must all be there, in order,
 * and no other line may look like one of its entries */
static void ordered(const char *got, const char *want)
{
    while (*got) {
        size_t g = strcspn(got, "\n"), w = strcspn(want, "\n");
        if (g == w && !memcmp(got, want, g)) {
            if (want[w]) want += w + 1; else want += w;
        } else MC_CHECK(strncmp(got, "    ", 4), "the listing has an extra or different line '%.160s', expected '%.160s'", got, want);
        got += g;
        if (*got) got++;
    }
    MC_CHECK(!*want, "the verbose listing lacks '%.200s'", want);
}
static void show(struct pu *p, int verbose)
{
    static char want[40000];
    size_t n;
    pu_save(p, F);
    size_t wn = listing(p, verbose, want);
    mc_state(mc_hash(&p->h, 4096, p->len));
    if (!mc_distinct(mc_hash(want, wn, 0))) { /* same text, still run */ }
    pu_inproc = !verbose;
    int rc = verbose ? tool(O, "show", "-v", F, NULL) : tool(O, "show", F, NULL);
    pu_inproc = true;
    mc_eval(1);
    MC_CHECK(rc == 0, "show returned %d", rc);
    char *b = out(&n);
    if (!verbose) {
        if (n != wn || memcmp(b, want, n)) differ(b, want);
    } else ordered(b, want);
    free(b);
    unchanged(p);
}
/* one query; want NULL: must be refused and must print no value */
static void query(struct pu *p, const char *want, const char *a, const char *b, const char *c, const char *d)
{
    size_t n;
    char *argv[10] = {"bpak", "show"};
    int k = 2;
    if (a) argv[k++] = (char *)a;
    if (b) argv[k++] = (char *)b;
    if (c) argv[k++] = (char *)c;
    if (d) argv[k++] = (char *)d;
    argv[k++] = F;
    argv[k] = NULL;
    int rc = toolv(O, argv);
    mc_eval(1);
    char *o = out(&n);
    if (want) {
        MC_CHECK(rc == 0, "query %s %s %s %s returned %d, expected '%.100s'", a, b, c ? c : "", d ? d : "", rc, want);
        MC_CHECK(!strcmp(o, want), "query %s %s %s %s prints '%.200s', expected '%.200s'", a, b, c ? c : "", d ? d : "", o, want);
    } else MC_CHECK(rc != 0, "query %s %s %s %s for something the archive does not hold succeeds and prints '%.100s'", a, b, c ? c : "", d ? d : "", o);
    mc_distinct(mc_hash(o, n, rc));
    free(o);
}
static void nameof(uint32_t id, int form, char *o)
{
    if (form == 0) {
        static const char *const N[] = {"kernel", "rootfs", "fs", "dtb", "some-other-thing", "bpak-key-id", "bpak-key-store"};
        for (int i = 0; i < 7; i++) if (pu_id(N[i]) == id) { strcpy(o, N[i]); return; }
        if (*pu_meta_name(id)) { strcpy(o, pu_meta_name(id)); return; }
    }
    sprintf(o, form == 1 ? "0x%x" : "0x%08X", id);
}
static void queries(struct pu *p)
{
    char nm[40], ref[40], t[300], w[400];
    uint8_t dg[64];
    pu_save(p, F);
    pu_inproc = true;
    for (int form = 0; form < 3; form++) {
        for (int i = 0; i < 32; i++) {
            struct bpak_meta_header *m = &p->h.meta[i];
            if (!m->id) continue;
            nameof(m->id, form, nm);
            /* without a part: the first entry with that id */
            int first = 0;
            while (p->h.meta[first].id != m->id) first++;
            if (first == i) {
                pu_meta_text(&p->h, m, t);
                sprintf(w, "%s%s", t, *t ? "\n" : "");
                query(p, w, "--meta", nm, NULL, NULL);
                query(p, w, "-m", nm, NULL, NULL);
            }
            /* with a part: the first with that id and reference */
            if (m->part_id_ref) {
                for (first = 0; p->h.meta[first].id != m->id || p->h.meta[first].part_id_ref != m->part_id_ref; ) first++;
                pu_meta_text(&p->h, &p->h.meta[first], t);
                sprintf(w, "%s%s", t, *t ? "\n" : "");
                nameof(m->part_id_ref, form, ref);
                query(p, w, "--meta", nm, "--part", ref);
            }
            query(p, NULL, "--meta", nm, "--part", "no-such-part");
        }
        for (int i = 0; i < 32; i++) {
            struct bpak_part_header *q = &p->h.parts[i];
            if (!q->id) continue;
            nameof(q->id, form, nm);
            sprintf(w, "Found 0x%x, %lu bytes\n", q->id, (unsigned long)q->size);
            query(p, w, "--part", nm, NULL, NULL);
            size_t o = pu_offset(&p->h, i) - 4096;
            pu_digest(1, p->data + o, q->flags & 2 ? q->transport_size : q->size, dg);
            hexs(dg, 32, w);
            strcat(w, "\n");
            query(p, w, "--part-hash", nm, NULL, NULL);
        }
    }
    query(p, NULL, "--part", "no-such-part", NULL, NULL);
    query(p, NULL, "--part-hash", "no-such-part", NULL, NULL);
    query(p, NULL, "--meta", "no-such-entry", NULL, NULL);
    query(p, NULL, "--part", "0x0", NULL, NULL);
    query(p, NULL, "--part-hash", "0x0", NULL, NULL);
    query(p, NULL, "--meta", "0x0", NULL, NULL);
    query(p, NULL, "--meta", "0x0", "--part", "0x0");
    if (p->h.parts[0].id) { /* the id of a part is no metadata id and the other way round */
        sprintf(nm, "0x%x", p->h.parts[0].id);
        query(p, NULL, "--meta", nm, NULL, NULL);
    }
    if (p->h.meta[0].id) {
        sprintf(nm, "0x%x", p->h.meta[0].id);
        query(p, NULL, "--part", nm, NULL, NULL);
        query(p, NULL, "--part-hash", nm, NULL, NULL);
    }
    struct bpak_header c = p->h;
    uint8_t ph[64];
    pu_payload_digest(&p->h, p->data, ph);
    memcpy(c.payload_hash, ph, dl(c.hash_kind));
    pu_header_digest(&c, dg);
    hexs(dg, dl(c.hash_kind), w);
    strcat(w, "\n");
    query(p, w, "--hash", NULL, NULL, NULL);
    query(p, w, "-H", NULL, NULL, NULL);
    unchanged(p);
}
/* ---- packages ---- */
static const struct { const char *name; } PN[] = {{"kernel"}, {"rootfs"}, {"fs"}, {"dtb"}};
/* part kinds: size, flags */
static const struct { size_t n; int flags; } PK[] = {{0, 0}, {1, 0}, {511, 0}, {512, 0}, {513, 0}, {1300, 1}, {512, 1}, {700, 2}, {0, 2}, {1024, 3}, {5000, 0}, {4096, 4 | 1}};
#define NPK ((int)(sizeof PK / sizeof *PK))
static void part(struct pu *p, uint32_t id, int k, int salt)
{
    const uint8_t *d = R + 64 * k + 13 * salt;
    if (PK[k].flags & 2) pu_part_t(p, id, d, PK[k].n, 123456 + k * 3 + salt, 512 - (123456 + k * 3 + salt) % 512, PK[k].flags);
    else pu_part(p, id, d, PK[k].n, PK[k].flags);
}
/* entry t in slot s at offset o */
static void entry(struct pu *p, int s, size_t o, int t, uint32_t ref, int salt)
{
    p->h.meta[s] = (struct bpak_meta_header){.id = pu_id(MT[t].name), .size = MT[t].size, .offset = o, .part_id_ref = ref};
    value(t, salt, p->h.metadata + o);
}
static void base(struct pu *p, int hk)
{
    pu_init(p, hk);
    p->h.signature_kind = 2;
    part(p, pu_id("kernel"), 4, 0);
    part(p, pu_id("rootfs"), 5, 1);
}
int mc_run(void)
{
    static struct pu P;
    pu_fill(R, sizeof R, 2727);
    strcpy(F, mc_path("p.bpak")); strcpy(O, mc_path("out"));
    pu_inproc = true;
    /* metadata: every pair of entry kinds, references and slot layout (every triple in the thorough tier) */
    static const int LAY[][3] = {{0, 1, 2}, {0, 2, 5}, {1, 0, 31}, {30, 31, 3}, {31, 15, 0}};
    for (int a = -1; a < NMT; a++)
        for (int b = -1; b < NMT; b++)
            for (int c = -1; c < (mc_thorough ? NMT : 0); c++)
                for (int l = 0; l < 5; l++)
                    for (int rf = 0; rf < 3; rf++) {
                        if (c >= 0 && (l + rf + a + b) % 5) continue;
                        if (!mc_mine()) continue;
                        mc_case("metadata kinds %d %d %d, slots %d, references %d", a, b, c, l, rf);
                        base(&P, 1 + (l + rf) % 3);
                        int t[3] = {a, b, c};
                        size_t o = l == 3 ? 1920 : 0;
                        for (int i = 0; i < 3; i++) {
                            if (t[i] < 0) continue;
                            uint32_t ref = rf == 0 ? 0 : rf == 1 ? pu_id(i ? "rootfs" : "kernel") : i == 1 ? 0 : 0x0000beef;
                            if (l == 3) o = (o - MT[t[i]].size) & ~7ul; /* from the end of the area */
                            entry(&P, LAY[l][i], o, t[i], ref, i + (a == b));
                            if (l != 3) o = (o + MT[t[i]].size + 7) & ~7ul;
                        }
                        pu_rehash(&P);
                        show(&P, 0);
                        if (mc_thorough ? c < 0 : (a + b + l) % 3 == 0 || a == b) queries(&P);
                        if ((a * 31 + b * 7 + l) % 11 == 0) show(&P, 1);
                        pu_free(&P);
                    }
    /* parts: every sequence of up to three kinds */
    for (int a = -1; a < NPK; a++)
        for (int b = -1; b < (a < 0 ? 0 : NPK); b++)
            for (int c = -1; c < (b < 0 ? 0 : NPK); c++) {
                if (!mc_mine()) continue;
                mc_case("part kinds %d %d %d", a, b, c);
                pu_init(&P, 1 + (a + b + c + 3) % 3);
                int t[3] = {a, b, c};
                for (int i = 0; i < 3; i++) if (t[i] >= 0) part(&P, i == 1 ? 0x7 : pu_id(PN[i].name), t[i], i);
                pu_rehash(&P);
                show(&P, 0);
                if (c < 0 || mc_thorough || (a + b + c) % 4 == 0) queries(&P);
                if (c < 0 || mc_thorough) show(&P, 1);
                pu_free(&P);
            }
    /* full tables, each entry in turn the interesting one */
    for (int k = 0; k < 32; k++)
        for (int v = 0; v < 4; v++) {
            if (!mc_mine()) continue;
            mc_case("full tables, entry %d, variant %d", k, v);
            pu_init(&P, 1 + v % 3);
            P.h.signature_kind = v + 1;
            for (int i = 0; i < 32; i++) part(&P, i == k ? pu_id("kernel") : 0x100 + i, i == k ? 9 : v == 1 ? i % NPK : v == 2 ? 1 : 0, i);
            size_t o = 0;
            for (int i = 0; i < 32; i++) {
                int t = i == k ? 2 : v == 3 ? i % 10 : 8;
                entry(&P, i, o, t, v == 2 ? 0x100 + i : i % 2, i);
                if (v != 3 && i != k) P.h.meta[i].id = v == 0 ? P.h.meta[i].id : 0x200 + i;
                o = (o + MT[t].size + 7) & ~7ul;
            }
            pu_rehash(&P);
            show(&P, 0);
            show(&P, 1);
            if (v || k % 8 == 0) queries(&P);
            pu_free(&P);
        }
    /* header fields */
    static const uint32_t ID[] = {0, 1, 0x80000000u, 0xffffffffu, 0x00abcdef};
    for (int hk = 1; hk <= 3; hk++)
        for (int sk = 0; sk <= 256; sk++)
            for (int ki = 0; ki < 5; ki++)
                for (int si = 0; si < 5; si++) {
                    if (sk > 6 && sk != 255 && sk != 128) continue;
                    if (!mc_mine()) continue;
                    mc_case("hash kind %d, signature kind %d, key id %x, keystore id %x", hk, sk, ID[ki], ID[si]);
                    base(&P, hk);
                    P.h.signature_kind = sk;
                    P.h.key_id = ID[ki]; P.h.keystore_id = ID[si];
                    if (ki % 2) { memset(P.h.signature, 0x5a + si, 512); P.h.signature_sz = si == 4 ? 512 : 64 + si; }
                    pu_rehash(&P);
                    show(&P, 0);
                    if (ki == si) { show(&P, 1); queries(&P); }
                    pu_free(&P);
                }
    /* content that does not match its recorded hash: every byte of the hash, every byte class of the content */
    for (int hk = 1; hk <= 3; hk++)
        for (int i = 0; i < (int)dl(hk) * 8; i++) {
            if (!mc_thorough && i % 8 != (i / 8) % 8) continue;
            if (!mc_mine()) continue;
            mc_case("hash kind %d, bit %d of the recorded payload hash flipped", hk, i);
            base(&P, hk);
            pu_rehash(&P);
            P.h.payload_hash[i / 8] ^= 1 << i % 8;
            show(&P, 0);
            if (i % 5 == 0) { show(&P, 1); queries(&P); }
            pu_free(&P);
        }
    for (int hk = 1; hk <= 3; hk++)
        for (int k = 0; k < NPK; k++)
            for (int j = 0; j < NPK; j++) {
                if (!mc_mine()) continue;
                base(&P, hk);
                part(&P, pu_id("fs"), k, 2);
                part(&P, pu_id("dtb"), j, 3);
                pu_rehash(&P);
                for (size_t at = 0; at < P.len; at += at < 1 ? 1 : mc_thorough ? 61 : 509) {
                    mc_case("hash kind %d, parts %d %d, content byte %zu changed", hk, k, j, at);
                    P.data[at] ^= 0x10; /* part of an excluded part: no warning */
                    show(&P, 0);
                    P.data[at] ^= 0x10;
                }
                pu_free(&P);
            }
    /* archives without any content */
    for (int hk = 1; hk <= 3; hk++)
        for (int t = -1; t < NMT; t++) {
            if (!mc_mine()) continue;
            mc_case("no parts, hash kind %d, entry kind %d", hk, t);
            pu_init(&P, hk);
            if (t >= 0) entry(&P, 7, 16, t, 0, 0);
            pu_rehash(&P);
            show(&P, 0);
            show(&P, 1);
            queries(&P);
            pu_free(&P);
        }
    return 0;
}
