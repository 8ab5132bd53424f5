/* Commands and library calls over prepared archives, shared by the fault-injection checks. */
#define _GNU_SOURCE
#include "mc.h"
#include "pu.h"
#include "scen.h"
#include <bpak/pkg.h>
#include <bpak/keystore.h>
#include <bpak/crypto.h>
#include <bpak/transport.h>
#include <bpak/bsdiff.h>
#include <unistd.h>

/* ---- scenarios ---- */
static char LONGV[5000], AX[300], AT[300], GB[300], OT[300], XF[3][300], YF[3][300], ZF[300];
static uint8_t R[700000];
static char A[300], B[300], O[300], OUT[300], D100[300], D512[300], D5K[300], D8K[300], D20K[300], DBIG[300], META[300], NUM[300], SIGF[300], KS[300], DLT[4][300];
static uint8_t *img_a, *img_b, *img_o, *img_d[4], *img_ks;
static size_t len_a, len_b, len_o, len_d[4], len_ks;


static struct bpak_package pk[3];
static int opn(int i, const char *f, const char *m) { return bpak_pkg_open(&pk[i], f, m); }
static int cls(int i, int rc) { int c = bpak_pkg_close(&pk[i]); return rc ? rc : c; }
static int l_new(void) { int rc = opn(0, A, "wb"); return rc ? rc : cls(0, bpak_pkg_write_header(&pk[0])); }
static int l_init(void) { int rc = opn(0, A, "wb+"); return rc ? rc : cls(0, 0); }
static int l_open(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, 0); }
static int l_addf(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_add_file(&pk[0], D20K, "new", 0)); }
static int l_add2(void) { int rc = opn(0, A, "r+"); if (rc) return rc; rc = bpak_pkg_add_file(&pk[0], D100, "n1", 0); if (!rc) rc = bpak_pkg_add_file(&pk[0], D5K, "n2", 0); return cls(0, rc); }
static int l_addm(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_add_file_with_merkle_tree(&pk[0], D20K, "new", 0)); }
static int l_addk(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_add_key(&pk[0], pu_key("p256-a.pub.der"), "new", 0)); }
static int l_del(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_delete_part(&pk[0], pu_id("data"), true)); }
static int l_deladd(void) { int rc = opn(0, A, "r+"); if (rc) return rc; rc = bpak_pkg_delete_part(&pk[0], pu_id("excl"), true); if (!rc) rc = bpak_pkg_add_file(&pk[0], D5K, "n2", 0); return cls(0, rc); }
static int l_delall(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_delete_all_parts(&pk[0], false)); }
static int l_raw(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_write_raw_signature(&pk[0], R, 512)); }
static int l_ext(void) { int rc = opn(0, A, "rb"); if (rc) return rc; rc = bpak_pkg_extract_file(&pk[0], pu_id("data"), OUT); cls(0, 0); return rc; }
static int l_hash(void)
{
    uint8_t h[64];
    size_t n = sizeof h;
    int rc = opn(0, A, "rb");
    if (rc) return rc;
    rc = bpak_pkg_update_hash(&pk[0], (char *)h, &n);
    if (!rc) { printf("%s\n", mc_hex(h, n)); printf("%s\n", mc_hex(pk[0].header.payload_hash, 64)); }
    cls(0, 0);
    return rc;
}
static int l_sign(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_sign(&pk[0], pu_key("p384-a.pem"))); }
static int l_enc(void)
{
    int rc = opn(0, B, "rb");
    if (rc) return rc;
    rc = opn(1, OUT, "wb+");
    if (rc) { cls(0, 0); return rc; }
    rc = opn(2, O, "rb");
    if (rc) { cls(0, 0); cls(1, 0); return rc; }
    rc = bpak_pkg_transport_encode(&pk[0], &pk[1], &pk[2]);
    rc = cls(1, rc);
    cls(0, 0); cls(2, 0);
    return rc;
}
static int l_dec(void)
{
    int rc = opn(0, DLT[0], "rb");
    if (rc) return rc;
    rc = opn(1, OUT, "wb+");
    if (rc) { cls(0, 0); return rc; }
    rc = opn(2, O, "rb");
    if (rc) { cls(0, 0); cls(1, 0); return rc; }
    rc = bpak_pkg_transport_decode(&pk[0], &pk[1], &pk[2]);
    rc = cls(1, rc);
    cls(0, 0); cls(2, 0);
    return rc;
}
static int l_ks(void)
{
    struct bpak_key *k = NULL;
    int rc = bpak_keystore_load_key_from_file(KS, pu_id("prov"), pu_id("k2"), NULL, NULL, &k);
    if (!rc) printf("%s\n", mc_hex(k->data, k->size));
    bpak_free(k);
    return rc;
}
static int l_key(void)
{
    struct bpak_key *k = NULL;
    int rc = bpak_crypto_load_private_key(pu_key("rsa4096-a.pem"), &k);
    if (!rc) printf("%s\n", mc_hex(k->data, 300));
    bpak_free(k);
    return rc;
}
static const struct sc *now;
static int l_priv(void)
{
    struct bpak_key *k = NULL;
    int rc = bpak_crypto_load_private_key(pu_key(now->argv[0]), &k);
    if (!rc) { printf("%d %s\n", k->kind, mc_hex(k->data, 100)); bpak_free(k); }
    return rc;
}
static int l_pub(void)
{
    struct bpak_key *k = NULL;
    int rc = bpak_crypto_load_public_key(pu_key(now->argv[0]), &k);
    if (!rc) { printf("%d %s\n", k->kind, mc_hex(k->data, k->size)); bpak_free(k); }
    return rc;
}
static int l_parse(void)
{
    static uint8_t b[4096];
    struct bpak_key *k = NULL;
    FILE *f = fopen(pu_key(now->argv[0]), "rb");
    if (!f) return -1;
    size_t n = fread(b, 1, sizeof b, f);
    if (ferror(f)) n = 0; /* C14 */
    fclose(f);
    if (!n) return -1;
    int rc = bpak_crypto_parse_public_key(b, n, &k);
    if (!rc) { printf("%d %s\n", k->kind, mc_hex(k->data, k->size)); bpak_free(k); }
    return rc;
}
static int l_ksx(void)
{
    struct bpak_key *k = NULL;
    int rc = bpak_keystore_load_key_from_file(now->argv[0][0] == 'A' ? A : KS, pu_id(now->argv[1]), pu_id(now->argv[2]), NULL, NULL, &k);
    if (!rc) bpak_free(k);
    return rc;
}
static int l_addkx(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_add_key(&pk[0], pu_key(now->argv[0]), now->argv[1], 0)); }
static int l_signx(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_sign(&pk[0], pu_key(now->argv[0]))); }
static int l_addmx(void) { int rc = opn(0, A, "r+"); return rc ? rc : cls(0, bpak_pkg_add_file_with_merkle_tree(&pk[0], D100, "new", 0)); }
static int l_encx(void)
{
    int rc = opn(0, now->argv[0][1] == '1' ? mc_path("b1") : mc_path("b2"), "rb");
    if (rc) return rc;
    rc = opn(1, OUT, "wb+");
    if (rc) { cls(0, 0); return rc; }
    rc = opn(2, now->argv[1][0] == 'O' ? O : A, "rb");
    if (rc) { cls(0, 0); cls(1, 0); return rc; }
    rc = bpak_pkg_transport_encode(&pk[0], &pk[1], &pk[2]);
    rc = cls(1, rc);
    cls(0, 0); cls(2, 0);
    return rc;
}
static int l_decx(void)
{
    const char *f = now->argv[0];
    int rc = opn(0, f[0] == 'D' ? DLT[f[1] - '0'] : f[0] == 'X' ? XF[f[1] - '0'] : f[0] == 'Y' ? YF[f[1] - '0'] : ZF, "rb");
    if (rc) return rc;
    rc = opn(1, OUT, "wb+");
    if (rc) { cls(0, 0); return rc; }
    rc = opn(2, O, "rb");
    if (rc) { cls(0, 0); cls(1, 0); return rc; }
    rc = bpak_pkg_transport_decode(&pk[0], &pk[1], &pk[2]);
    rc = cls(1, rc);
    cls(0, 0); cls(2, 0);
    return rc;
}
/* decoding given up after some bytes of the second encoded part, or after two starts */
static uint8_t mem_out[65536];
static ssize_t m_write(off_t o, uint8_t *b, size_t n, void *u) { (void)u; if (o < 0 || o + n > sizeof mem_out) return -1; memcpy(mem_out + o, b, n); return n; }
static ssize_t m_read(off_t o, uint8_t *b, size_t n, void *u) { (void)u; if (o < 0 || o + n > sizeof mem_out) return -1; memcpy(b, mem_out + o, n); return n; }
static ssize_t m_org(off_t o, uint8_t *b, size_t n, void *u) { (void)u; if (o < 0 || 4096 + o + n > len_o) return -1; memcpy(b, img_o + 4096 + o, n); return n; }
static int l_giveup(void)
{
    static struct bpak_transport_decode d;
    static struct bpak_header h, oh;
    static uint8_t buf[4096];
    int w = now->argv[0][1] - '0', rc;
    memcpy(&h, img_d[w], sizeof h);
    memcpy(&oh, img_o, sizeof oh);
    rc = bpak_transport_decode_init(&d, buf, sizeof buf, &h, m_write, m_read, 0, m_write, NULL);
    if (rc) return rc;
    rc = bpak_transport_decode_set_origin(&d, &oh, m_org, 0);
    if (!rc) rc = bpak_transport_decode_start(&d, &h.parts[0]);
    if (!rc) rc = bpak_transport_decode_write_chunk(&d, img_d[w] + 4096, 100);
    if (!rc && now->argv[1]) rc = bpak_transport_decode_start(&d, &h.parts[2]);
    if (!rc && now->argv[1]) rc = bpak_transport_decode_write_chunk(&d, img_d[w] + pu_offset(&h, 2), 60);
    bpak_transport_decode_free(&d);
    return rc;
}
static int l_diff(void)
{
    static struct bpak_bsdiff_context c;
    static const enum bpak_compression k[] = {BPAK_COMPRESSION_NONE, BPAK_COMPRESSION_HS, BPAK_COMPRESSION_LZMA};
    int rc = bpak_bsdiff_init(&c, R, 3000, R + 17, 3100, m_write, 0, k[now->argv[0][0] - '0'], NULL);
    if (rc) return rc;
    ssize_t n = 0;
    if (!now->argv[1]) n = bpak_bsdiff(&c);
    bpak_bsdiff_free(&c);
    if (n >= 0) printf("%s", mc_hex(mem_out, n < 200 ? n : 200));
    return n < 0 ? n : 0;
}
static int l_garbage(void) { int rc = opn(0, D20K, "rb"); return rc ? rc : cls(0, 0); }
static const struct sc S[] = {
    {"create", NULL, {"create", "A"}, C_NOA},
    {"create over", NULL, {"create", "-Y", "A"}, 0},
    {"create kinds", NULL, {"create", "-Y", "A", "--hash-kind", "sha512", "--signature-kind", "rsa4096"}, 0},
    {"add meta string", NULL, {"add", "A", "--meta", "mm", "--from-string", "value"}, 0},
    {"add meta file", NULL, {"add", "A", "--meta", "mm", "--from-file", META}, 0},
    {"add meta uuid file", NULL, {"add", "A", "--meta", "mm", "--from-string", "01234567-89ab-cdef-0123-456789abcdef", "--encoder", "uuid"}, 0},
    {"add meta integer file", NULL, {"add", "A", "--meta", "mm", "--from-file", NUM, "--encoder", "integer"}, 0},
    {"add part 100", NULL, {"add", "A", "--part", "new", "--from-file", D100}, 0},
    {"add part 512", NULL, {"add", "A", "--part", "new", "--from-file", D512}, 0},
    {"add part 5000", NULL, {"add", "A", "--part", "new", "--from-file", D5K}, 0},
    {"add part 20000 dont-hash", NULL, {"add", "A", "--part", "new", "--from-file", D20K, "--set-flag", "dont-hash"}, 0},
    {"add part to a new archive", NULL, {"add", "E", "--part", "new", "--from-file", D5K}, 0, {"e"}},
    {"add key", NULL, {"add", "A", "--part", "new", "--from-file", "@p256-a.pub.pem", "--encoder", "key"}, 0},
    {"add key rsa", NULL, {"add", "A", "--part", "new", "--from-file", "@rsa4096-a.pub.der", "--encoder", "key"}, 0},
    {"add merkle", NULL, {"add", "A", "--part", "new", "--from-file", D8K, "--encoder", "merkle"}, 0},
    {"add merkle big", NULL, {"add", "A", "--part", "new", "--from-file", DBIG, "--encoder", "merkle"}, 0},
    {"delete first", NULL, {"delete", "A", "--part", "data"}, 0},
    {"delete middle", NULL, {"delete", "A", "--part", "excl", "--keep-meta"}, 0},
    {"delete last", NULL, {"delete", "A", "--part", "tail"}, 0},
    {"delete all", NULL, {"delete", "A", "--all"}, 0},
    {"extract part", NULL, {"extract", "A", "--part", "data", "--output", OUT}, 0, {"out"}},
    {"extract part stdout", NULL, {"extract", "A", "--part", "data"}, C_OUT},
    {"extract short part", NULL, {"extract", "A", "--part", "excl", "--output", OUT}, 0, {"out"}},
    {"extract short part stdout", NULL, {"extract", "A", "--part", "excl"}, C_OUT},
    {"extract meta", NULL, {"extract", "A", "--meta", "text", "--output", OUT}, 0, {"out"}},
    {"extract meta stdout", NULL, {"extract", "A", "--meta", "text"}, C_OUT},
    {"sign", NULL, {"sign", "A", "--key", "@p256-a.pem"}, C_SIGN},
    {"sign der", NULL, {"sign", "A", "--key", "@p384-a.der"}, C_SIGN},
    {"sign external", NULL, {"sign", "A", "--signature", SIGF}, 0},
    {"verify", NULL, {"verify", "A", "--key", "@p256-a.pub.pem"}, C_OUT},
    {"verify keystore", NULL, {"verify", "A", "--keystore", KS}, C_OUT},
    {"show", NULL, {"show", "A"}, C_OUT},
    {"show hash", NULL, {"show", "--hash", "A"}, C_OUT},
    {"show binary hash", NULL, {"show", "--binary-hash", "A"}, C_OUT},
    {"show part hash", NULL, {"show", "--part-hash", "data", "A"}, C_OUT},
    {"show part", NULL, {"show", "--part", "data", "A"}, C_OUT},
    {"show meta", NULL, {"show", "--meta", "text", "A"}, C_OUT},
    {"set meta", NULL, {"set", "A", "--meta", "text", "--from-string", "world"}, 0},
    {"set longer meta", NULL, {"set", "A", "--meta", "text", "--from-string", "a value longer than the one before"}, 0},
    {"set key id", NULL, {"set", "A", "--key-id", "kid", "--keystore-id", "ksid"}, 0},
    {"transport add", NULL, {"transport", "A", "--add", "--part-ref", "data", "--encoder", "bsdiff", "--decoder", "bspatch"}, 0},
    {"encode", NULL, {"transport", "B", "--encode", "--origin", "O", "--output", OUT}, 0, {"out"}},
    {"encode no-comp", NULL, {"transport", "B1", "--encode", "--origin", "O", "--output", OUT}, 0, {"out"}},
    {"encode lzma", NULL, {"transport", "B2", "--encode", "--origin", "O", "--output", OUT}, 0, {"out"}},
    {"decode", NULL, {"transport", "D0", "--decode", "--origin", "O", "--output", OUT}, 0, {"out"}},
    {"decode no-comp", NULL, {"transport", "D1", "--decode", "--origin", "O", "--output", OUT}, 0, {"out"}},
    {"decode lzma", NULL, {"transport", "D2", "--decode", "--origin", "O", "--output", OUT}, 0, {"out"}},
    {"generate id", NULL, {"generate", "id", "abc"}, C_OUT},
    {"generate keystore", NULL, {"generate", "keystore", "--name", "x", KS}, C_OUT},
    {"generate keystore decorated", NULL, {"generate", "keystore", "--name", "x", "--decorate", KS}, C_OUT},
    {"compare", NULL, {"compare", "A", "B"}, C_OUT},
    {"compare same", NULL, {"compare", "A", "A"}, C_OUT},
    {"library: new archive", l_new, {0}, C_NOA},
    {"library: initial header", l_init, {0}, C_NOA},
    {"library: open for modification", l_open, {0}, 0},
    {"library: add file", l_addf, {0}, 0},
    {"library: add two files", l_add2, {0}, 0},
    {"library: add file with tree", l_addm, {0}, 0},
    {"library: add key", l_addk, {0}, 0},
    {"library: delete part", l_del, {0}, 0},
    {"library: delete and add", l_deladd, {0}, 0},
    {"library: delete all parts", l_delall, {0}, 0},
    {"library: raw signature", l_raw, {0}, 0},
    {"library: extract", l_ext, {0}, 0, {"out"}},
    {"library: hash", l_hash, {0}, C_OUT},
    {"library: sign", l_sign, {0}, C_SIGN},
    {"library: encode", l_enc, {0}, 0, {"out"}},
    {"library: decode", l_dec, {0}, 0, {"out"}},
    {"library: key from keystore file", l_ks, {0}, C_OUT},
    {"library: private key", l_key, {0}, C_OUT},
    {"library: private key p256", l_priv, {"p256-a.pem"}, C_OUT},
    {"library: private key p521 der", l_priv, {"p521-a.der"}, C_OUT},
    {"library: private key p384 pkcs8", l_priv, {"p384-a.p8.pem"}, C_OUT},
    {"library: private key rsa der", l_priv, {"rsa4096-a.der"}, C_OUT},
    {"library: public key p256", l_pub, {"p256-a.pub.pem"}, C_OUT},
    {"library: public key p384 der", l_pub, {"p384-a.pub.der"}, C_OUT},
    {"library: public key p521", l_pub, {"p521-a.pub.pem"}, C_OUT},
    {"library: public key rsa", l_pub, {"rsa4096-a.pub.pem"}, C_OUT},
    {"library: public key rsa der", l_pub, {"rsa4096-a.pub.der"}, C_OUT},
    {"library: parse public key p256", l_parse, {"p256-a.pub.der"}, C_OUT},
    {"library: parse public key p521", l_parse, {"p521-a.pub.der"}, C_OUT},
    {"library: parse public key rsa", l_parse, {"rsa4096-a.pub.der"}, C_OUT},
    {"library: add key rsa", l_addkx, {"rsa4096-a.pub.pem", "new"}, 0},
    {"library: sign p521", l_signx, {"p521-a.pem"}, C_SLOW},
    {"library: encode no-comp", l_encx, {"B1", "O"}, 0, {"out"}},
    {"library: encode lzma", l_encx, {"B2", "O"}, 0, {"out"}},
    {"library: decode no-comp", l_decx, {"D1"}, 0, {"out"}},
    {"library: decode lzma", l_decx, {"D2"}, 0, {"out"}},
    {"library: abandoned decoding", l_giveup, {"D0"}, 0},
    {"library: abandoned decoding lzma", l_giveup, {"D2"}, 0},
    {"library: abandoned decoding twice lzma", l_giveup, {"D2", "2"}, 0},
    {"library: abandoned decoding twice", l_giveup, {"D0", "2"}, 0},
    {"library: diff", l_diff, {"0"}, C_OUT},
    {"library: diff heatshrink", l_diff, {"1"}, C_OUT},
    {"library: diff lzma", l_diff, {"2"}, C_OUT},
    {"library: abandoned diff lzma", l_diff, {"2", "x"}, 0},
    /* refused */
    {"library: encode lzma with the wrong origin", l_encx, {"B2", "A"}, C_FAIL},
    {"library: decode truncated", l_decx, {"X0"}, C_FAIL},
    {"library: decode lzma truncated", l_decx, {"X2"}, C_FAIL},
    {"library: decode damaged", l_decx, {"Y0"}, C_FAIL},
    {"library: decode lzma damaged", l_decx, {"Y2"}, C_FAIL},
    {"library: decode lzma damaged inside", l_decx, {"Z2"}, C_FAIL},
    {"library: private key of an unsupported curve", l_priv, {"bad-p224.pem"}, C_FAIL},
    {"library: private key of another unsupported curve", l_priv, {"bad-secp256k1.pem"}, C_FAIL},
    {"library: private rsa key of an unsupported size", l_priv, {"bad-rsa2048.pem"}, C_FAIL},
    {"library: private key encrypted", l_priv, {"bad-enc.pem"}, C_FAIL},
    {"library: public key as a private key", l_priv, {"p256-a.pub.pem"}, C_FAIL},
    {"library: missing private key", l_priv, {"nothing"}, C_FAIL},
    {"library: public key of an unsupported curve", l_pub, {"bad-p224.pub.pem"}, C_FAIL},
    {"library: public rsa key of an unsupported size", l_pub, {"bad-rsa2048.pub.pem"}, C_FAIL},
    {"library: public rsa key too big", l_pub, {"bad-rsa8192.pub.pem"}, C_FAIL},
    {"library: public key of an unknown kind", l_pub, {"bad-ed25519.pub.pem"}, C_FAIL},
    {"library: missing public key", l_pub, {"nothing"}, C_FAIL},
    {"library: parse a private key", l_parse, {"p256-a.der"}, C_FAIL},
    {"library: parse a text key", l_parse, {"rsa4096-a.pub.pem"}, C_FAIL},
    {"library: keystore of another provider", l_ksx, {"K", "other", "k2"}, C_FAIL},
    {"library: unknown key in keystore", l_ksx, {"K", "prov", "none"}, C_FAIL},
    {"library: archive that is no keystore", l_ksx, {"A", "prov", "data"}, C_FAIL},
    {"library: add a bad key", l_addkx, {"bad-p224.pub.pem", "new"}, C_FAIL},
    {"library: add a key twice", l_addkx, {"p256-a.pub.pem", "data"}, C_FAIL},
    {"library: sign with a public key", l_signx, {"p256-a.pub.pem"}, C_FAIL},
    {"library: sign with an unsupported key", l_signx, {"bad-secp256k1.pem"}, C_FAIL},
    {"library: tree over odd data", l_addmx, {0}, C_FAIL},
    {"library: open garbage", l_garbage, {0}, C_FAIL},
    {"add missing file", NULL, {"add", "A", "--part", "new", "--from-file", "/nonexistent/x"}, C_FAIL},
    {"add part twice", NULL, {"add", "A", "--part", "data", "--from-file", D100}, C_FAIL},
    {"add tree over odd data", NULL, {"add", "A", "--part", "new", "--from-file", D100, "--encoder", "merkle"}, C_FAIL},
    {"add bad key", NULL, {"add", "A", "--part", "new", "--from-file", "@bad-secp256k1.pub.pem", "--encoder", "key"}, C_FAIL},
    {"add big meta", NULL, {"add", "A", "--meta", "mm", "--from-file", D20K}, C_FAIL},
    {"delete missing part", NULL, {"delete", "A", "--part", "nope"}, C_FAIL},
    {"extract missing part", NULL, {"extract", "A", "--part", "nope", "--output", OUT}, C_FAIL},
    {"extract missing meta", NULL, {"extract", "A", "--meta", "nope", "--output", OUT}, C_FAIL},
    {"sign with a public key", NULL, {"sign", "A", "--key", "@p256-a.pub.pem"}, C_FAIL},
    {"sign with a missing key", NULL, {"sign", "A", "--key", "@nothing"}, C_FAIL},
    {"verify with another key", NULL, {"verify", "A", "--key", "@p256-b.pub.pem"}, C_FAIL},
    {"verify with a key of another kind", NULL, {"verify", "A", "--key", "@rsa4096-a.pub.pem"}, C_FAIL},
    {"verify with a missing key", NULL, {"verify", "A", "--key", "@nothing"}, C_FAIL},
    {"verify damaged", NULL, {"verify", "AX", "--key", "@p256-a.pub.pem"}, C_FAIL},
    {"verify damaged with keystore", NULL, {"verify", "AX", "--keystore", KS}, C_FAIL},
    {"verify with an archive that is no keystore", NULL, {"verify", "A", "--keystore", "B"}, C_FAIL},
    {"verify truncated", NULL, {"verify", "AT", "--key", "@p256-a.pub.pem"}, C_FAIL},
    {"show garbage", NULL, {"show", "GB"}, C_FAIL},
    {"set without archive", NULL, {"set", "/nonexistent/a", "--meta", "text", "--from-string", "world"}, C_FAIL},
    {"set too big a value", NULL, {"set", "A", "--meta", "text", "--from-string", LONGV}, C_FAIL},
    {"encode with the wrong origin", NULL, {"transport", "B", "--encode", "--origin", "A", "--output", OUT}, C_FAIL},
    {"encode without origin", NULL, {"transport", "B2", "--encode", "--output", OUT}, C_FAIL},
    {"decode without origin", NULL, {"transport", "D2", "--decode", "--output", OUT}, C_FAIL},
    {"decode truncated", NULL, {"transport", "X0", "--decode", "--origin", "O", "--output", OUT}, C_FAIL},
    {"decode no-comp truncated", NULL, {"transport", "X1", "--decode", "--origin", "O", "--output", OUT}, C_FAIL},
    {"decode lzma truncated", NULL, {"transport", "X2", "--decode", "--origin", "O", "--output", OUT}, C_FAIL},
    {"decode damaged", NULL, {"transport", "Y0", "--decode", "--origin", "O", "--output", OUT}, C_FAIL},
    {"decode no-comp damaged", NULL, {"transport", "Y1", "--decode", "--origin", "O", "--output", OUT}, C_FAIL},
    {"decode lzma damaged", NULL, {"transport", "Y2", "--decode", "--origin", "O", "--output", OUT}, C_FAIL},
    {"decode lzma damaged inside", NULL, {"transport", "Z2", "--decode", "--origin", "O", "--output", OUT}, C_FAIL},
    {"decode lzma over a truncated origin", NULL, {"transport", "D2", "--decode", "--origin", "OT", "--output", OUT}, C_FAIL},
    {"generate keystore of no keystore", NULL, {"generate", "keystore", "--name", "x", "A"}, C_FAIL},
    {"compare with garbage", NULL, {"compare", "A", "GB"}, C_FAIL},
    /* the verbosity cannot be lowered again: last */
    {"show verbose", NULL, {"show", "-v", "A"}, C_OUT},
};
const struct sc *sc_list(int *n) { *n = sizeof S / sizeof *S; return S; }
static char E[300], B1[300], B2[300];
void sc_restore(const struct sc *s)
{
    if (s->flags & C_NOA) unlink(A); else mc_write_file(A, img_a, len_a);
    mc_write_file(E, "", 0);
    mc_write_file(OUT, "previous", 8);
}
int sc_call(const struct sc *s)
{
    char *argv[18];
    int n = 0;
    now = s;
    if (s->fn) return s->fn();
    argv[n++] = "bpak";
    for (int i = 0; s->argv[i]; i++) {
        const char *a = s->argv[i];
        argv[n++] = (char *)(!strcmp(a, "A") ? A : !strcmp(a, "B") ? B : !strcmp(a, "B1") ? B1 : !strcmp(a, "B2") ? B2 : !strcmp(a, "O") ? O : !strcmp(a, "E") ? E : !strcmp(a, "D0") ? DLT[0] : !strcmp(a, "D1") ? DLT[1] : !strcmp(a, "D2") ? DLT[2] : !strcmp(a, "AX") ? AX : !strcmp(a, "AT") ? AT : !strcmp(a, "GB") ? GB : !strcmp(a, "OT") ? OT : !strcmp(a, "X0") ? XF[0] : !strcmp(a, "X1") ? XF[1] : !strcmp(a, "X2") ? XF[2] : !strcmp(a, "Y0") ? YF[0] : !strcmp(a, "Y1") ? YF[1] : !strcmp(a, "Y2") ? YF[2] : !strcmp(a, "Z2") ? ZF : a[0] == '@' ? pu_key(a + 1) : a);
    }
    argv[n] = NULL;
    optind = 0;
    return bpak_tool_main(n, argv) & 0xff;
}
void sc_watch(const struct sc *s, char *p)
{
    snprintf(p, 300, "%s", s->watch[0] ? mc_path(s->watch[0]) : A);
}
bool sc_result_ok(const struct sc *s, const uint8_t *d, size_t n, const uint8_t *ref, size_t refn, const char **why)
{
    *why = "";
    if (n != refn) { *why = "length"; return false; }
    if (s->flags & C_SIGN) {
        size_t sg = offsetof(struct bpak_header, signature);
        size_t e = sizeof(struct bpak_header);
        struct bpak_header h;
        memcpy(&h, d, sizeof h);
        if (memcmp(d, ref, offsetof(struct bpak_header, signature_sz) < sg ? offsetof(struct bpak_header, signature_sz) : sg) || memcmp(d + e, ref + e, n - e)) { *why = "content"; return false; }
        if (!pu_verify_sig(&h, pu_key(s->fn || strstr(s->name, "der") ? "p384-a.pub.pem" : "p256-a.pub.pem"))) { *why = "signature"; return false; }
        return true;
    }
    if (memcmp(d, ref, n)) { *why = "content"; return false; }
    return true;
}
static void img(const char *path, uint8_t **d, size_t *n) { *d = mc_read_file(path, n); if (!*d) mc_die("no %s", path); }
void sc_setup(void)
{
    pu_fill(R, sizeof R, 14);
    strcpy(A, mc_path("a")); strcpy(B, mc_path("b")); strcpy(O, mc_path("o")); strcpy(OUT, mc_path("out")); strcpy(E, mc_path("e"));
    strcpy(B1, mc_path("b1")); strcpy(B2, mc_path("b2")); strcpy(KS, mc_path("ks"));
    strcpy(D100, mc_path("d100")); strcpy(D512, mc_path("d512")); strcpy(D5K, mc_path("d5k")); strcpy(D8K, mc_path("d8k")); strcpy(D20K, mc_path("d20k")); strcpy(DBIG, mc_path("dbig"));
    strcpy(META, mc_path("meta.in")); strcpy(NUM, mc_path("num.in")); strcpy(SIGF, mc_path("s.sig"));
    mc_write_file(D100, R, 100); mc_write_file(D512, R + 5, 512); mc_write_file(D5K, R + 9, 5000); mc_write_file(D8K, R + 2, 8192); mc_write_file(D20K, R + 11, 20480); mc_write_file(DBIG, R, mc_thorough ? 147 * 4096 : 130 * 4096);
    mc_write_file(META, R + 30, 600); mc_write_file(NUM, "0x1234", 6); mc_write_file(SIGF, R + 77, 256);
    struct pu p;
    /* keystore */
    pu_init(&p, 1);
    pu_uuid(&p, 1);
    size_t n;
    uint8_t *k = mc_read_file(pu_key("p384-a.pub.der"), &n);
    pu_part(&p, pu_id("k1"), k, n, 0); free(k);
    k = mc_read_file(pu_key("p256-a.pub.der"), &n);
    pu_part(&p, pu_id("k2"), k, n, 0); free(k);
    uint32_t prov = pu_id("prov");
    pu_meta(&p, pu_id("keystore-provider-id"), 0, &prov, 4);
    pu_rehash(&p); pu_save(&p, KS); pu_free(&p);
    /* archive A: signed, names the keystore key */
    pu_init(&p, 1);
    pu_uuid(&p, 1);
    pu_meta(&p, pu_id("text"), 0, "hello", 6);
    pu_part(&p, pu_id("data"), R + 100, 9000, 0);
    pu_part(&p, pu_id("excl"), R + 200, 300, 1);
    pu_part(&p, pu_id("tail"), R + 300, 6000, 0);
    pu_meta(&p, pu_id("text"), pu_id("data"), "bound", 6);
    p.h.key_id = pu_id("k2"); p.h.keystore_id = prov;
    pu_rehash(&p); pu_sign(&p, pu_key("p256-a.pem")); pu_save(&p, A); pu_free(&p);
    img(A, &img_a, &len_a);
    /* origin */
    pu_init(&p, 1);
    pu_uuid(&p, 1);
    pu_part(&p, pu_id("data"), R + 90, 9000, 0);
    pu_part(&p, pu_id("plain"), R + 90, 30, 0);
    pu_merkle_parts(&p, "fs", R + 4000, 8192, 0, 7);
    pu_rehash(&p); pu_save(&p, O); pu_free(&p);
    static const char *en[] = {"bsdiff", "bsdiff-no-comp", "bsdiff-lzma"}, *de[] = {"bspatch", "bspatch-no-comp", "bspatch-lzma"};
    for (int i = 0; i < 3; i++) {
        pu_init(&p, 1);
        pu_uuid(&p, 1);
        pu_part(&p, pu_id("data"), R + 100, 9300, 0);
        pu_part(&p, pu_id("plain"), R + 60, 5000, 0);
        pu_merkle_parts(&p, "fs", R + 4011, 12288, 0, 7);
        pu_transport(&p, pu_id("data"), en[i], de[i]);
        pu_transport(&p, pu_id("fs"), en[i], de[i]);
        pu_transport(&p, pu_tree_id(pu_id("fs")), "remove-data", "merkle-generate");
        pu_rehash(&p); pu_sign(&p, pu_key("p256-a.pem")); pu_save(&p, i == 0 ? B : i == 1 ? B1 : B2); pu_free(&p);
        char nm[8];
        sprintf(nm, "dl%d", i);
        strcpy(DLT[i], mc_path(nm));
        pu_inproc = true;
        if (tool("", "transport", i == 0 ? B : i == 1 ? B1 : B2, "--encode", "--origin", O, "--output", DLT[i], NULL)) mc_fail("encoding fails");
        img(DLT[i], &img_d[i], &len_d[i]);
        size_t n;
        uint8_t *d = mc_read_file(DLT[i], &n);
        struct bpak_header h;
        memcpy(&h, d, sizeof h);
        size_t first = h.parts[0].transport_size;
        sprintf(nm, "x%d", i); strcpy(XF[i], mc_path(nm));
        mc_write_file(XF[i], d, 4096 + first / 2);
        sprintf(nm, "y%d", i); strcpy(YF[i], mc_path(nm));
        memset(d + 4096, 0xff, 30);
        mc_write_file(YF[i], d, n);
        if (i == 2) {
            free(d);
            d = mc_read_file(DLT[i], &n);
            strcpy(ZF, mc_path("z2"));
            memset(d + 4096 + first / 2, 0xff, 40);
            mc_write_file(ZF, d, n);
        }
        free(d);
    }
    img(O, &img_o, &len_o);
    strcpy(AX, mc_path("ax")); strcpy(AT, mc_path("at")); strcpy(GB, mc_path("gb")); strcpy(OT, mc_path("ot"));
    uint8_t *d = malloc(len_a);
    memcpy(d, img_a, len_a);
    d[5000] ^= 1;
    mc_write_file(AX, d, len_a);
    mc_write_file(AT, img_a, len_a - 1000);
    free(d);
    mc_write_file(GB, R, 9000);
    d = mc_read_file(O, &n);
    mc_write_file(OT, d, 4096 + 3000);
    free(d);
    memset(LONGV, 'v', sizeof LONGV - 1);
}
