/* C05: stored and reported hashes equal the documented digest of the content. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/verify.h>
#include <unistd.h>

static uint8_t R[120000];
static const size_t SZ[] = {0, 1, 511, 512, 513, 4095, 4096, 4097, 8192, 66000};
#define NSZ 10
/* kinds 0..NSZ-1 plain, NSZ.. excluded, 2*NSZ.. encoded, 3*NSZ.. encoded and excluded */
#define NK (4 * NSZ)
static struct pu P, A;
static long failat, nrd;
static int failmode;
static ssize_t rd(off_t o, uint8_t *b, size_t n, void *u)
{
    struct pu *p = u;
    if (nrd++ == failat) {
        if (failmode == 0) return -BPAK_READ_ERROR;
        if (failmode == 1) return n > 0 ? (ssize_t)n - 1 : -1;
        if (failmode == 2) return n + 1;
        return 0;
    }
    o -= 777;
    if (o < 0 || (size_t)o > p->len || n > p->len - o) mc_fail("read of %zu bytes at %ld outside the %zu byte payload", n, (long)o, p->len);
    memcpy(b, p->data + o, n);
    return n;
}
static void addpart(struct pu *p, int k, int idx)
{
    char nm[16];
    int form = k / NSZ;
    size_t n = SZ[k % NSZ];
    snprintf(nm, 16, "part-%d", idx);
    const uint8_t *d = R + idx * 1000 + k;
    if (form < 2) pu_part(p, pu_id(nm), d, n, form & 1);
    else pu_part_t(p, pu_id(nm), d, n, 12345, 512 - 12345 % 512, form & 1);
}
static size_t dl(int hk) { return hk == 1 ? 32 : hk == 2 ? 48 : 64; }
static void header_extra(struct pu *p, int sig)
{
    pu_uuid(p, 3);
    p->h.key_id = 0x1234; p->h.keystore_id = 0x88776655;
    if (sig) {
        memset(p->h.signature, 0xa0 + sig, sizeof p->h.signature);
        p->h.signature_sz = sig == 1 ? 71 : 512;
    }
}
static void sequence(int n, const int *k, int hk)
{
    static struct bpak_package pkg;
    uint8_t want[64], hw[64], got[64];
    pu_init(&P, hk);
    for (int i = 0; i < n; i++) addpart(&P, k[i], i);
    header_extra(&P, 0);
    pu_payload_digest(&P.h, P.data, want);
    /* stale payload hash and a signature in place: neither may matter */
    memset(P.h.payload_hash, 0x77, 64);
    for (size_t cap = dl(hk); cap <= 64; cap += 64 - dl(hk) ? 64 - dl(hk) : 64) {
        size_t sz = cap;
        uint8_t *o = malloc(cap);
        failat = -1;
        struct bpak_header before = P.h;
        int rc = bpak_verify_compute_payload_hash(&P.h, rd, 777, &P, o, &sz);
        mc_eval(1); mc_trans(1);
        MC_CHECK(rc == 0 && sz == dl(hk) && !memcmp(o, want, sz), "payload hash differs from the digest of the content (rc %d, size %zu)", rc, sz);
        MC_CHECK(!memcmp(&before, &P.h, 4096), "computing the payload hash changed the header");
        free(o);
    }
    /* library on a file */
    memcpy(P.h.payload_hash, want, 64);
    /* every byte of the stored digest counts */
    for (size_t i = 0; i <= dl(hk); i++) {
        if (i < dl(hk)) P.h.payload_hash[i] ^= i & 1 ? 0x80 : 1;
        failat = -1;
        int rc = bpak_verify_payload(&P.h, rd, 777, &P);
        mc_eval(1);
        MC_CHECK((rc == 0) == (i == dl(hk)), "byte %zu of the stored payload hash is changed: %d", i, rc);
        if (i < dl(hk)) P.h.payload_hash[i] ^= i & 1 ? 0x80 : 1;
        if (i % 8 == 0 && n > 1) i += 6;
    }
    size_t l = pu_header_digest(&P.h, hw);
    mc_distinct(mc_hash(hw, l, 0));
    mc_state(mc_hash(&P.h, 4096, P.len));
    for (int sig = 0; sig < 3; sig++) {
        struct pu Q = {0};
        pu_copy(&Q, &P);
        if (sig) { memset(Q.h.signature, 0xa0 + sig, 512); Q.h.signature_sz = sig == 1 ? 71 : 512; }
        memset(Q.h.payload_hash, 0x31 * sig, dl(hk)); /* stale */
        pu_save(&Q, mc_path("h"));
        if (bpak_pkg_open(&pkg, mc_path("h"), "rb")) mc_fail("open");
        memset(got, 0xee, 64);
        size_t sz = 64;
        int rc = bpak_pkg_update_hash(&pkg, (char *)got, &sz);
        mc_trans(1); mc_eval(1);
        MC_CHECK(rc == 0 && sz == l && !memcmp(got, hw, l), "header hash differs from the digest of the header with cleared signature (rc %d, size %zu, signature %d)", rc, sz, Q.h.signature_sz);
        MC_CHECK(!memcmp(pkg.header.payload_hash, want, dl(hk)), "the payload hash stored in the header differs from the digest of the content");
        struct bpak_header t = pkg.header;
        memcpy(t.payload_hash, Q.h.payload_hash, 64);
        MC_CHECK(!memcmp(&t, &Q.h, 4096), "updating the hash changed another header field");
        bpak_pkg_close(&pkg);
        pu_free(&Q);
    }
}
static void viatool(int n, const int *k, int hk, int sig)
{
    uint8_t want[64], hw[64];
    pu_init(&P, hk);
    for (int i = 0; i < n; i++) addpart(&P, k[i], i);
    header_extra(&P, sig);
    pu_rehash(&P);
    memcpy(want, P.h.payload_hash, 64);
    size_t l = pu_header_digest(&P.h, hw);
    P.h.payload_hash[0] ^= sig; /* stale with a signature */
    pu_save(&P, mc_path("h"));
    char ex[200] = "";
    for (size_t i = 0; i < l; i++) sprintf(ex + 2 * i, "%02x", hw[i]);
    strcat(ex, "\n");
    size_t on;
    int rc = tool(mc_path("o"), "show", "--hash", mc_path("h"), NULL);
    char *o = (char *)mc_read_file(mc_path("o"), &on);
    MC_CHECK(rc == 0 && on == 2 * l + 1 && !memcmp(o, ex, on), "show --hash (%d) prints '%.140s', expected '%s'", rc, o, ex);
    free(o);
    rc = tool(mc_path("o"), "show", "--binary-hash", mc_path("h"), NULL);
    o = (char *)mc_read_file(mc_path("o"), &on);
    MC_CHECK(rc == 0 && on == l && !memcmp(o, hw, on), "show --binary-hash (%d) writes %zu bytes that are not the header digest", rc, on);
    free(o);
    rc = tool(mc_path("o"), "show", mc_path("h"), NULL);
    o = (char *)mc_read_file(mc_path("o"), &on);
    o[on] = 0;
    char *p = strstr(o, "Header hash:  ");
    MC_CHECK(rc == 0 && p && !strncmp(p + 14, ex, 2 * l + 1), "show prints another header hash");
    for (size_t i = 0; i < l; i++) sprintf(ex + 2 * i, "%02x", want[i]);
    strcat(ex, "\n");
    p = strstr(o, "Payload hash: ");
    MC_CHECK(p && !strncmp(p + 14, ex, 2 * l + 1), "show prints another payload hash");
    MC_CHECK(!!strstr(o, "does not match") == !!(sig), "show %s of a wrong payload hash", sig ? "does not warn" : "warns");
    free(o);
    for (int i = 0; i < n; i++) { /* sha256 of each part's stored data without padding */
        char nm[16];
        uint8_t d[64];
        size_t len = P.h.parts[i].flags & 2 ? P.h.parts[i].transport_size : P.h.parts[i].size;
        snprintf(nm, 16, "part-%d", i);
        pu_digest(1, P.data + pu_offset(&P.h, i) - 4096, len, d);
        for (size_t b = 0; b < 32; b++) sprintf(ex + 2 * b, "%02x", d[b]);
        strcat(ex, "\n");
        rc = tool(mc_path("o"), "show", "--part-hash", nm, mc_path("h"), NULL);
        o = (char *)mc_read_file(mc_path("o"), &on);
        MC_CHECK(rc == 0 && on == 65 && !memcmp(o, ex, 65), "show --part-hash of part %d (%d) prints '%.70s'", i, rc, o);
        free(o);
    }
    mc_eval(3 + n);
    /* a file that lost its end has no hash to report */
    int hashed = -1;
    for (int i = 0; i < n; i++) if (!(P.h.parts[i].flags & 1) && pu_stored(&P.h.parts[i])) hashed = i;
    if (hashed >= 0) {
        size_t end = pu_offset(&P.h, hashed) + pu_stored(&P.h.parts[hashed]);
        if (truncate(mc_path("h"), end - 1)) mc_die("truncate");
        rc = tool(mc_path("o"), "show", "--hash", mc_path("h"), NULL);
        MC_CHECK(rc != 0, "show --hash of a truncated archive reports a hash");
        rc = tool(mc_path("o"), "show", "--binary-hash", mc_path("h"), NULL);
        MC_CHECK(rc != 0, "show --binary-hash of a truncated archive reports a hash");
        rc = tool(mc_path("o"), "show", mc_path("h"), NULL);
        MC_CHECK(rc != 0, "show of a truncated archive reports success");
        mc_eval(3);
    }
}
/* the same content built up in different ways hashes identically */
static void addfile(struct bpak_package *p, int k, int idx)
{
    char nm[16];
    snprintf(nm, 16, "part-%d", idx);
    mc_write_file(mc_path("src"), R + idx * 1000 + k, SZ[k % NSZ]);
    int rc = bpak_pkg_add_file(p, mc_path("src"), nm, k / NSZ & 1);
    if (rc) mc_fail("add_file returned %d", rc);
    mc_trans(1);
}
static void addtool(const char *f, int k, int idx)
{
    char nm[16];
    snprintf(nm, 16, "part-%d", idx);
    mc_write_file(mc_path("src"), R + idx * 1000 + k, SZ[k % NSZ]);
    int rc = k / NSZ & 1 ? tool("", "add", f, "--part", nm, "--from-file", mc_path("src"), "--set-flag", "dont-hash", NULL)
                         : tool("", "add", f, "--part", nm, "--from-file", mc_path("src"), NULL);
    if (rc) mc_fail("add returned %d", rc);
}
static void built(int n, const int *k, int hk, int way)
{
    static struct bpak_package pkg;
    const char *f = mc_path("b");
    unlink(f);
    static const char *hn[] = {"", "sha256", "sha384", "sha512"};
    if (way < 3) {
        if (bpak_pkg_open(&pkg, f, "wb+")) mc_fail("create");
        pkg.header.hash_kind = hk;
        if (way == 1) addfile(&pkg, 4, 9);
        for (int i = 0; i < n; i++) {
            addfile(&pkg, k[i], i);
            if (way == 2) { bpak_pkg_close(&pkg); if (bpak_pkg_open(&pkg, f, "rb+")) mc_fail("reopen"); addfile(&pkg, 7, 9); if (bpak_pkg_delete_part(&pkg, pu_id("part-9"), true)) mc_fail("delete"); }
        }
        if (way == 1 && bpak_pkg_delete_part(&pkg, pu_id("part-9"), true)) mc_fail("delete");
        if (!n && way != 1) { if (bpak_pkg_update_hash(&pkg, NULL, NULL) || bpak_pkg_write_header(&pkg)) mc_fail("write"); }
        bpak_pkg_close(&pkg);
    } else {
        if (tool("", "create", f, "-Y", "--hash-kind", hn[hk], NULL)) mc_fail("create");
        for (int i = 0; i < n; i++) {
            addtool(f, k[i], i);
            if (way == 4) { addtool(f, 3 + i, 8); if (tool("", "delete", f, "--part", "part-8", NULL)) mc_fail("delete"); }
        }
    }
    pu_init(&P, hk);
    for (int i = 0; i < n; i++) addpart(&P, k[i], i);
    pu_rehash(&P);
    if (!pu_load(&A, f)) mc_fail("unreadable");
    mc_eval(1);
    MC_CHECK(!memcmp(A.h.payload_hash, P.h.payload_hash, dl(hk)), "the stored payload hash is not the digest of the content");
    uint8_t a[64], b[64];
    size_t l = pu_header_digest(&P.h, a), m;
    struct bpak_header t = A.h;
    memcpy(t.parts, P.h.parts, sizeof t.parts);
    MC_CHECK(!memcmp(&t, &P.h, 4096), "header differs from the one of the content");
    if (bpak_pkg_open(&pkg, f, "rb")) mc_fail("open");
    m = 64;
    int rc = bpak_pkg_update_hash(&pkg, (char *)b, &m);
    bpak_pkg_close(&pkg);
    MC_CHECK(!rc && m == l && !memcmp(a, b, l), "the reported hash is not the digest of the header");
}
int mc_run(void)
{
    pu_fill(R, sizeof R, 77);
    int k[3];
    for (int hk = 1; hk <= 3; hk++) {
        if (mc_mine()) { mc_case("no parts, hash kind %d", hk); sequence(0, k, hk); if (bpak_tool_main) viatool(0, k, hk, 0); }
        for (k[0] = 0; k[0] < NK; k[0]++) {
            if (mc_mine()) { mc_case("one part of kind %d, hash kind %d", k[0], hk); sequence(1, k, hk); }
            for (k[1] = 0; k[1] < NK; k[1]++) {
                if (mc_mine()) { mc_case("parts of kind %d %d, hash kind %d", k[0], k[1], hk); sequence(2, k, hk); }
                if (!mc_thorough && (k[0] + k[1] + hk) % 5) continue;
                for (k[2] = 0; k[2] < NK; k[2]++) {
                    if (!mc_thorough && (k[0] + k[1] * 3 + k[2]) % 7) continue;
                    if (mc_mine()) { mc_case("parts of kind %d %d %d, hash kind %d", k[0], k[1], k[2], hk); sequence(3, k, hk); }
                }
            }
        }
        /* output buffers of every size, hash kinds that do not exist */
        for (size_t cap = 0; cap <= 70; cap++) {
            if (!mc_mine()) continue;
            mc_case("output buffer of %zu bytes, hash kind %d", cap, hk);
            pu_init(&P, hk); k[0] = 4; addpart(&P, 4, 0); pu_rehash(&P);
            uint8_t *o = malloc(cap ? cap : 1), hw[64];
            size_t sz = cap, l = pu_header_digest(&P.h, hw);
            failat = -1;
            int rc = bpak_verify_compute_payload_hash(&P.h, rd, 777, &P, o, &sz);
            MC_CHECK(cap >= l ? rc == 0 && sz == l && !memcmp(o, P.h.payload_hash, l) : rc != 0, "payload hash: returned %d", rc);
            sz = cap;
            rc = bpak_verify_compute_header_hash(&P.h, o, &sz);
            MC_CHECK(cap >= l ? rc == 0 && sz == l && !memcmp(o, hw, l) : rc != 0, "header hash: returned %d with %zu bytes", rc, sz);
            free(o);
            mc_eval(2);
        }
        /* failing and short reads */
        for (int fm = 0; fm < 4; fm++) {
            pu_init(&P, hk); addpart(&P, 4, 0); addpart(&P, NSZ + 4, 1); addpart(&P, 9, 2); addpart(&P, 2 * NSZ + 6, 3);
            nrd = 0; failat = -1;
            uint8_t o[64]; size_t sz = 64;
            bpak_verify_compute_payload_hash(&P.h, rd, 777, &P, o, &sz);
            long n = nrd;
            for (long f = 0; f < n; f++) {
                if (!mc_mine()) continue;
                mc_case("hash kind %d, read %ld of %ld %s", hk, f, n, fm == 0 ? "fails" : fm == 1 ? "is short" : fm == 2 ? "is long" : "returns nothing");
                nrd = 0; failat = f; failmode = fm; sz = 64;
                int rc = bpak_verify_compute_payload_hash(&P.h, rd, 777, &P, o, &sz);
                mc_eval(1);
                MC_CHECK(rc != 0, "the failed read was not reported");
                nrd = 0;
                rc = bpak_verify_payload(&P.h, rd, 777, &P);
                MC_CHECK(rc != 0, "payload verification ignores the failed read");
            }
            failat = -1;
        }
    }
    for (int hk = 0; hk < 256; hk++) {
        if (hk >= 1 && hk <= 3) continue;
        if (!mc_mine()) continue;
        mc_case("hash kind %d", hk);
        pu_init(&P, 1); addpart(&P, 4, 0); pu_rehash(&P); P.h.hash_kind = hk;
        uint8_t o[64]; size_t sz = 64;
        failat = -1;
        MC_CHECK(bpak_verify_compute_payload_hash(&P.h, rd, 777, &P, o, &sz) != 0, "payload hash of an unknown kind is computed");
        MC_CHECK(bpak_verify_compute_header_hash(&P.h, o, &sz) != 0, "header hash of an unknown kind is computed");
        mc_eval(2);
    }
    if (!bpak_tool_main) return 0;
    for (int hk = 1; hk <= 3; hk++)
        for (int a = -1; a < NK; a++)
            for (int b = -1; b < (a < 0 ? 0 : NK); b++)
                for (int sig = 0; sig < 3; sig++) {
                    if (!mc_thorough && b >= 0 && (a + 3 * b + sig + hk) % 53) continue;
                    if (!mc_mine()) continue;
                    mc_case("tool: parts of kind %d %d, hash kind %d, signature %d", a, b, hk, sig);
                    k[0] = a; k[1] = b;
                    viatool((a >= 0) + (b >= 0), k, hk, sig);
                }
    for (int hk = 1; hk <= 3; hk++)
        for (int way = 0; way < 5; way++)
            for (int a = 0; a < 2 * NSZ; a++)
                for (int b = -1; b < 2 * NSZ; b++) {
                    if (!mc_thorough && b >= 0 && (way < 3 ? (a + b + hk) % 3 : (a * 5 + b + hk) % 61)) continue;
                    if (!mc_mine()) continue;
                    mc_case("history %d: parts of kind %d %d, hash kind %d", way, a, b, hk);
                    k[0] = a; k[1] = b;
                    built(1 + (b >= 0), k, hk, way);
                }
    pu_free(&P); pu_free(&A);
    return 0;
}
