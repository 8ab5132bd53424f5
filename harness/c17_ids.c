/* C17: identifiers. */
#include "mc.h"
#include "pu.h"
#include <bpak/id.h>
#include <bpak/crc.h>
#include <bpak/utils.h>
#include "bpak_tool.h"

static void name(const char *s, size_t n)
{
    uint32_t want = pu_crc(0, s, n), got = bpak_id(s);
    mc_eval(1);
    MC_CHECK(got == want, "id(%s) is %08x, the CRC-32 is %08x", mc_hex(s, n), got, want);
    uint32_t tree = pu_crc(want, "-hash-tree", 10);
    MC_CHECK(bpak_part_id_to_hash_tree_id(got) == tree, "tree id of part id %08x is %08x, expected %08x", got, bpak_part_id_to_hash_tree_id(got), tree);
    uint32_t bn = bpak_part_name_to_hash_tree_id(s);
    MC_CHECK(bn == tree, "tree id by name %s is %08x, expected %08x", mc_hex(s, n), bn, tree);
    char b[700];
    memcpy(b, s, n); memcpy(b + n, "-hash-tree", 11);
    MC_CHECK(bpak_id(b) == tree, "id of the name with suffix differs from the tree id");
}
static void incremental(const uint8_t *d, size_t n)
{
    uint32_t want = pu_crc(0, d, n);
    for (size_t i = 0; i <= n; i++) {
        uint8_t *a = malloc(i ? i : 1), *b = malloc(n - i ? n - i : 1); /* exact sizes */
        memcpy(a, d, i); memcpy(b, d + i, n - i);
        uint32_t g = bpak_crc32(bpak_crc32(0, a, i), b, n - i);
        free(a); free(b);
        mc_trans(2);
        MC_CHECK(g == want, "CRC of %zu+%zu bytes is %08x, expected %08x", i, n - i, g, want);
    }
    mc_eval(1);
}
static struct bpak_header H;
int mc_run(void)
{
    char s[700];
    if (mc_mine()) { mc_case("empty name"); name("", 0); }
    for (int a = 1; a < 256; a++) {
        if (!mc_mine()) continue;
        mc_case("all names starting with byte %02x", a);
        s[0] = a; s[1] = 0;
        name(s, 1);
        for (int b = 1; b < 256; b++) {
            s[1] = b; s[2] = 0;
            name(s, 2);
            int step = mc_thorough ? 1 : 17;
            for (int c = 1 + (a + b) % step; c < 256; c += step) { s[2] = c; s[3] = 0; name(s, 3); }
        }
    }
    static const char *pat[] = {"a", "fs-hash-tree", "-hash-tree", "0123456789", "\xff\xfe\x80", "kernel", "rootfs-", "BPAK"};
    for (int p = 0; p < 8; p++)
        for (int len = 1; len < 600; len++) {
            if (!mc_mine()) continue;
            mc_case("pattern %d repeated to %d bytes", p, len);
            for (int i = 0; i < len; i++) s[i] = pat[p][i % strlen(pat[p])];
            s[len] = 0;
            name(s, len);
        }
    /* CRC over all byte values, lengths and splits; from non-zero states */
    uint8_t d[512];
    for (int sd = 0; sd < 4; sd++)
        for (int len = 0; len < (mc_thorough ? 400 : 160); len++) {
            if (!mc_mine()) continue;
            mc_case("CRC of %d bytes (seed %d), every split", len, sd);
            pu_fill(d, len, sd);
            if (sd == 1) memset(d, 0, len);
            if (sd == 2) memset(d, 0xff, len);
            incremental(d, len);
        }
    for (int bit = 0; bit < 32; bit++)
        for (int v = 0; v < 256; v++) {
            if (!mc_mine()) continue;
            uint8_t b = v;
            mc_case("CRC step from state bit %d, byte %02x", bit, v);
            for (int inv = 0; inv < 2; inv++) {
                uint32_t st = 1u << bit;
                if (inv) st = ~st;
                uint32_t g = bpak_crc32(st, &b, 1), w = pu_crc(st, &b, 1);
                MC_CHECK(g == w, "crc32(%08x, %02x) = %08x, expected %08x", st, v, g, w);
            }
            mc_eval(1);
        }
    /* unaligned big buffers */
    if (mc_mine()) {
        mc_case("CRC of a large buffer at every alignment");
        uint8_t *big = malloc(70000);
        pu_fill(big, 70000, 5);
        for (int a = 0; a < 16; a++)
            for (int l = 69000; l < 69017; l++)
                MC_CHECK(bpak_crc32(0, big + a, l) == pu_crc(0, big + a, l), "large CRC differs");
        free(big);
    }
    /* every 32-bit identifier: a printed name must be that identifier's name */
    uint64_t chunk = 1 << 20;
    static const uint32_t known[] = {BPAK_ID_BPAK_TRANSPORT, BPAK_ID_MERKLE_SALT, BPAK_ID_MERKLE_ROOT_HASH, BPAK_ID_KEYSTORE_PROVIDER_ID, BPAK_ID_BPAK_VERSION, BPAK_ID_PB_LOAD_ADDR, BPAK_ID_BPAK_PACKAGE, BPAK_ID_BPAK_KEY_ID, BPAK_ID_BPAK_KEY_STORE, BPAK_ID_BSDIFF, BPAK_ID_BSDIFF_LZMA, BPAK_ID_BSDIFF_NO_COMP, BPAK_ID_BSPATCH, BPAK_ID_BSPATCH_LZMA, BPAK_ID_BSPATCH_NO_COMP, BPAK_ID_MERKLE_GENERATE, BPAK_ID_REMOVE_DATA};
    static const char *kname[] = {"bpak-transport", "merkle-salt", "merkle-root-hash", "keystore-provider-id", "bpak-version", "pb-load-addr", "bpak-package", "bpak-key-id", "bpak-key-store", "bsdiff", "bsdiff-lzma", "bsdiff-no-comp", "bspatch", "bspatch-lzma", "bspatch-no-comp", "merkle-generate", "remove-data"};
    for (uint64_t base = 0; base < 1ull << 32; base += chunk) {
        if (!mc_mine()) continue;
        mc_case("identifiers %08llx...", (unsigned long long)base);
        for (uint64_t i = base; i < base + chunk; i++) {
            const char *n = bpak_id_to_string((uint32_t)i);
            if (*n) {
                MC_CHECK(pu_id(n) == (uint32_t)i, "identifier %08x is printed as '%s', whose identifier is %08x", (uint32_t)i, n, pu_id(n));
                mc_note("identifiers with a printed name", 1);
                mc_distinct(i);
            }
        }
        mc_eval(1);
    }
    for (int i = 0; i < 17; i++) {
        if (!mc_mine()) continue;
        mc_case("well-known identifier %s", kname[i]);
        MC_CHECK(known[i] == pu_id(kname[i]), "the constant for %s is %08x, its identifier is %08x", kname[i], known[i], pu_id(kname[i]));
        if (i < 7) MC_CHECK(!strcmp(bpak_id_to_string(known[i]), kname[i]), "%s is printed as '%s'", kname[i], bpak_id_to_string(known[i]));
        mc_eval(1);
    }
    /* reverse lookup of tree ids in headers: every pair of slots, with and without holes */
    for (int i = 0; i < 32; i++)
        for (int j = 0; j < 32; j++)
            for (int hole = 0; hole < 2; hole++) {
                if (i == j || !mc_mine()) continue;
                mc_case("tree id lookup, part in slot %d, tree in slot %d%s", i, j, hole ? ", other slots empty" : "");
                memset(&H, 0, sizeof H);
                for (int k = 0; k < 32 && !hole; k++) { snprintf(s, 20, "other%d", k); H.parts[k].id = pu_id(s); }
                uint32_t id = pu_id("fs"), t = pu_crc(id, "-hash-tree", 10);
                H.parts[i].id = id; H.parts[j].id = t;
                uint32_t g = bpak_hash_tree_id_to_part_id(&H, t);
                mc_eval(1);
                MC_CHECK(g == id, "lookup of the tree's data part gave %08x, expected %08x", g, id);
                MC_CHECK(bpak_hash_tree_id_to_part_id(&H, 0x12345678) == 0, "lookup of an unrelated id gave a part");
                MC_CHECK(bpak_hash_tree_id_to_part_id(&H, id) == 0, "the data part is taken for a tree");
            }
    /* the tool prints the same values and accepts them back as references */
    static const char *tn[] = {"", "a", "kernel", "fs-hash-tree", "bpak-package", "with space", "0xcafe", "\xc3\xa5\xc3\xa4", "0123456789012345678901234567890123456789", "-x"};
    for (int i = 0; i < 10; i++) {
        if (!mc_mine()) continue;
        static char o[300];
        char want[200];
        size_t n;
        mc_case("tool: generate id '%s'", tn[i]);
        strcpy(o, mc_path("out"));
        int rc = i == 9 ? tool(o, "generate", "--", "id", tn[i], NULL) : tool(o, "generate", "id", tn[i], NULL);
        uint8_t *b = mc_read_file(o, &n);
        snprintf(want, sizeof want, "id(\"%s\") = 0x%8.8x\n", tn[i], pu_id(tn[i]));
        MC_CHECK(rc == 0 && n == strlen(want) && !memcmp(b, want, n), "tool printed '%.*s' (exit %d), expected '%s'", (int)n, (char *)b, rc, want);
        free(b);
        if (i != 6) MC_CHECK(bpak_get_id_for_name_or_ref((char *)tn[i]) == pu_id(tn[i]), "name '%s' resolves to %08x", tn[i], bpak_get_id_for_name_or_ref((char *)tn[i]));
        char ref[20];
        snprintf(ref, sizeof ref, "0x%x", pu_id(tn[i]));
        MC_CHECK(bpak_get_id_for_name_or_ref(ref) == pu_id(tn[i]), "reference %s resolves to %08x", ref, bpak_get_id_for_name_or_ref(ref));
        mc_eval(1);
    }
    for (uint64_t v = 0; v < 1ull << 32; v += mc_thorough ? 10007 : 1000003) {
        if (!mc_mine()) continue;
        char ref[20];
        for (int f = 0; f < 3; f++) {
            snprintf(ref, sizeof ref, f == 0 ? "0x%llx" : f == 1 ? "0x%08llx" : "0x%llX", (unsigned long long)v);
            mc_case("reference %s", ref);
            MC_CHECK(bpak_get_id_for_name_or_ref(ref) == v, "resolves to %08x", bpak_get_id_for_name_or_ref(ref));
        }
    }
    return 0;
}
