/* C16: refused operations leave the archive file untouched; read-only operations never write. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <bpak/transport.h>
#include <unistd.h>
#include <sys/stat.h>

static uint8_t R[20000];
static char F[300], W[300], X[300], SRC[300], BIG[300], EMPTY[300], DIR_[300], MISS[300], LONG[300], SIG[300], SIG0[300], ORGF[300], WRONGF[300], NOIDF[300], DELTA[300], TXT[300], JUNK[300], TKEY[300], TPUB[300];
static char longstr[2100], hugestr[1930];

enum { S_FRESH, S_RICH, S_PARTS31, S_PARTS32, S_META31, S_META32, S_SPACE, S_DELTA, S_TRUNC, S_TRAIL, S_TREE, S_HASH9, S_EMPTY, S_SHORT, NS };
static const char *sn[] = {"fresh", "rich", "31 parts", "32 parts", "31 metadata entries", "32 metadata entries", "metadata area nearly full", "transport encoded", "truncated", "trailing data", "stray tree parts", "unknown hash kind", "empty file", "short file"};
static uint8_t *img[NS];
static size_t il[NS];

static void rich(struct pu *p)
{
    pu_init(p, 1);
    pu_uuid(p, 1);
    pu_meta(p, pu_id("text"), 0, "hello", 6);
    uint64_t v = 5;
    pu_meta(p, pu_id("num"), 0, &v, 8);
    uint32_t w = pu_id("ks");
    pu_meta(p, pu_id("keystore-provider-id"), 0, &w, 4);
    pu_part(p, pu_id("data"), R, 700, 0);
    pu_merkle_parts(p, "fs", R + 50, 5000, 0, 7);
    pu_part(p, pu_id("excl"), R + 99, 100, 1);
    pu_transport(p, pu_id("data"), "bsdiff", "bspatch");
    pu_transport(p, pu_tree_id(pu_id("fs")), "remove-data", "merkle-generate");
    pu_meta(p, pu_id("text"), pu_id("data"), "bound", 6);
}
static void snap(int s, const struct pu *p)
{
    il[s] = 4096 + p->len;
    img[s] = malloc(il[s] + 2000);
    memcpy(img[s], &p->h, 4096);
    memcpy(img[s] + 4096, p->data, p->len);
}
static int coder(const char *in, const char *out, const char *org, bool enc)
{
    static struct bpak_package i, o, g;
    int rc;
    if ((rc = bpak_pkg_open(&i, in, "rb"))) return rc;
    if ((rc = bpak_pkg_open(&o, out, "wb+"))) mc_die("cannot create output");
    if (org && (rc = bpak_pkg_open(&g, org, "rb"))) { bpak_pkg_close(&i); bpak_pkg_close(&o); return rc; }
    rc = enc ? bpak_pkg_transport_encode(&i, &o, org ? &g : NULL) : bpak_pkg_transport_decode(&i, &o, org ? &g : NULL);
    bpak_pkg_close(&i); bpak_pkg_close(&o);
    if (org) bpak_pkg_close(&g);
    return rc;
}
static void states(void)
{
    struct pu p;
    pu_init(&p, 1); pu_rehash(&p); snap(S_FRESH, &p); pu_free(&p);
    rich(&p); pu_rehash(&p); pu_sign(&p, pu_key("p256-a.pem")); snap(S_RICH, &p);
    pu_save(&p, W);
    struct pu o;
    pu_init(&o, 1); pu_uuid(&o, 1); pu_part(&o, pu_id("data"), R + 3, 650, 0); pu_merkle_parts(&o, "fs", R + 52, 4900, 0, 5); pu_rehash(&o); pu_save(&o, ORGF); pu_free(&o);
    pu_init(&o, 1); pu_uuid(&o, 2); pu_part(&o, pu_id("data"), R + 3, 650, 0); pu_merkle_parts(&o, "fs", R + 52, 4900, 0, 5); pu_rehash(&o); pu_save(&o, WRONGF); pu_free(&o);
    pu_init(&o, 1); pu_part(&o, pu_id("data"), R + 3, 650, 0); pu_rehash(&o); pu_save(&o, NOIDF); pu_free(&o);
    if (coder(W, DELTA, ORGF, true)) mc_fail("encoding fails");
    if (!pu_load(&o, DELTA)) mc_die("load");
    snap(S_DELTA, &o); pu_free(&o);
    snap(S_TRUNC, &p); il[S_TRUNC] -= 100;
    snap(S_TRAIL, &p); memset(img[S_TRAIL] + il[S_TRAIL], 0x5a, 700); il[S_TRAIL] += 700;
    for (int k = 0; k < 2; k++) {
        struct pu q = {0};
        pu_copy(&q, &p);
        for (int i = 0; i < 40; i++) { char n[20]; sprintf(n, "x%d", i); if (q.h.parts[30 + k].id) break; pu_part(&q, pu_id(n), R + i, 30 + i, 0); }
        pu_rehash(&q); snap(k ? S_PARTS32 : S_PARTS31, &q); pu_free(&q);
        memset(&q, 0, sizeof q);
        pu_copy(&q, &p);
        for (int i = 0; i < 40; i++) { char n[20]; sprintf(n, "m%d", i); if (q.h.meta[30 + k].id) break; pu_meta(&q, pu_id(n), 0, R + i, 3); }
        pu_rehash(&q); snap(k ? S_META32 : S_META31, &q); pu_free(&q);
    }
    struct pu q = {0};
    pu_copy(&q, &p);
    int used = 0;
    for (int i = 0; i < 32; i++) if (q.h.meta[i].id) used = (q.h.meta[i].offset + q.h.meta[i].size + 7) / 8 * 8;
    pu_meta(&q, pu_id("fill"), 0, R, 1920 - used - 40);
    pu_rehash(&q); snap(S_SPACE, &q); pu_free(&q);
    /* adding "zz" / "yy" / "xx" with a tree collides half way */
    pu_init(&q, 1);
    pu_part(&q, pu_tree_id(pu_id("zz")), R, 10, 0);
    pu_meta(&q, pu_id("merkle-salt"), pu_id("yy"), R, 32);
    pu_meta(&q, pu_id("merkle-root-hash"), pu_id("xx"), R, 32);
    pu_part(&q, pu_id("data"), R, 700, 0);
    pu_rehash(&q); snap(S_TREE, &q); pu_free(&q);
    pu_copy(&q, &p); q.h.hash_kind = 9; snap(S_HASH9, &q); pu_free(&q);
    pu_free(&p);
    img[S_EMPTY] = malloc(1); il[S_EMPTY] = 0;
    img[S_SHORT] = malloc(4096); memset(img[S_SHORT], 'x', 4096); il[S_SHORT] = 4095;
}
static bool same(const char *f, const uint8_t *d, size_t n)
{
    size_t m;
    uint8_t *b = mc_read_file(f, &m);
    bool ok = b && m == n && !memcmp(b, d, n);
    free(b);
    return ok;
}
/* ---- tool: refused operations. MUST: refused whatever the state ---- */
static const char *badkeys[] = {"bad-rsa2048.pem", "bad-rsa2048.pub.pem", "bad-secp256k1.pem", "bad-bp384.pub.pem", "bad-ed25519.pem", "bad-p224.pub.pem", NULL};
#define MUST 1
#define MAY 0
static int nv;
static struct { int must; const char *a[16]; } V[300];
static void addv(int must, ...)
{
    va_list ap;
    va_start(ap, must);
    V[nv].must = must;
    for (int i = 0; i < 12; i++) if (!(V[nv].a[i] = va_arg(ap, const char *))) break;
    va_end(ap);
    nv++;
}
static const char *dupstr(const char *s) { return strdup(s); }
static void build_ops(void)
{
    addv(MAY, "add", W, "--part", "data", "--from-file", SRC, NULL);
    addv(MAY, "add", W, "--part", "new", "--from-file", SRC, NULL);
    addv(MUST, "add", W, "--part", "new", "--from-file", MISS, NULL);
    addv(MUST, "add", W, "--part", "new", "--from-file", DIR_, NULL);
    addv(MUST, "add", W, "--part", "new", "--from-string", "abc", NULL);
    addv(MUST, "add", W, "--part", "new", NULL);
    addv(MUST, "add", W, "--from-file", SRC, NULL);
    addv(MUST, "add", W, NULL);
    addv(MUST, "add", W, "--part", "new", "--from-file", SRC, "--encoder", "nonsense", NULL);
    addv(MUST, "add", W, "--part", "new", "--from-file", SRC, "--encoder", "uuid", NULL);
    addv(MUST, "add", W, "--part", "new", "--from-file", SRC, "--set-flag", "nonsense", NULL);
    addv(MAY, "add", W, "--part", "data", "--from-file", SRC, "--encoder", "merkle", NULL);
    addv(MAY, "add", W, "--part", "fs", "--from-file", BIG, "--encoder", "merkle", NULL);
    addv(MAY, "add", W, "--part", "zz", "--from-file", BIG, "--encoder", "merkle", NULL);
    addv(MAY, "add", W, "--part", "yy", "--from-file", BIG, "--encoder", "merkle", NULL);
    addv(MAY, "add", W, "--part", "xx", "--from-file", BIG, "--encoder", "merkle", NULL);
    addv(MUST, "add", W, "--part", "new", "--from-file", MISS, "--encoder", "merkle", NULL);
    addv(MUST, "add", W, "--part", "new", "--from-file", DIR_, "--encoder", "merkle", NULL);
    addv(MUST, "add", W, "--part", "new", "--from-string", "x", "--encoder", "merkle", NULL);
    addv(MAY, "add", W, "--part", "new", "--from-file", EMPTY, "--encoder", "merkle", NULL);
    addv(MUST, "add", W, "--part", "new", "--from-file", MISS, "--encoder", "key", NULL);
    addv(MUST, "add", W, "--part", "new", "--from-file", DIR_, "--encoder", "key", NULL);
    addv(MUST, "add", W, "--part", "new", "--from-string", "x", "--encoder", "key", NULL);
    addv(MAY, "add", W, "--part", "data", "--from-file", dupstr(pu_key("p256-a.pub.pem")), "--encoder", "key", NULL);
    for (int i = 0; badkeys[i]; i++) {
        addv(MUST, "add", W, "--part", "new", "--from-file", dupstr(pu_key(badkeys[i])), "--encoder", "key", NULL);
        addv(MUST, "sign", W, "--key", dupstr(pu_key(badkeys[i])), NULL);
        addv(MUST, "verify", W, "--key", dupstr(pu_key(badkeys[i])), NULL);
    }
    const char *own[] = {EMPTY, JUNK, TKEY, TPUB, NULL};
    for (int i = 0; own[i]; i++) {
        addv(MUST, "add", W, "--part", "new", "--from-file", own[i], "--encoder", "key", NULL);
        addv(MUST, "sign", W, "--key", own[i], NULL);
        addv(MUST, "verify", W, "--key", own[i], NULL);
    }
    addv(MUST, "sign", W, "--key", MISS, NULL);
    addv(MUST, "sign", W, "--key", DIR_, NULL);
    addv(MUST, "sign", W, "--key", dupstr(pu_key("p256-a.pub.pem")), NULL);
    addv(MUST, "sign", W, "--key", JUNK, NULL);
    addv(MUST, "sign", W, NULL);
    addv(MUST, "sign", W, "--signature", MISS, NULL);
    addv(MUST, "sign", W, "--signature", LONG, NULL);
    addv(MUST, "sign", W, "--signature", BIG, NULL);
    addv(MUST, "sign", W, "--signature", DIR_, NULL);
    addv(MUST, "sign", W, "--signature", SIG0, NULL);
    addv(MAY, "add", W, "--meta", "text", "--from-string", "again", NULL);
    addv(MAY, "add", W, "--meta", "text", "--part-ref", "data", "--from-string", "again", NULL);
    addv(MAY, "add", W, "--meta", "newm", "--from-string", "0123456789012345678901234567890123456789", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", longstr, NULL);
    addv(MAY, "add", W, "--meta", "newm", "--from-string", hugestr, NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-file", MISS, NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-file", EMPTY, NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-file", DIR_, NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-file", BIG, NULL);
    addv(MUST, "add", W, "--meta", "newm", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", "notauuid", "--encoder", "uuid", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", "", "--encoder", "uuid", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", "00000000-0000-0000-0000-00000000000g", "--encoder", "uuid", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", "abc", "--encoder", "integer", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", "", "--encoder", "integer", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", "12zz", "--encoder", "integer", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", "0x", "--encoder", "integer", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", "99999999999999999999999", "--encoder", "integer", NULL);
    addv(MUST, "add", W, "--meta", "newm", "--from-string", "5", "--encoder", "nonsense", NULL);
    addv(MAY, "add", W, "--meta", "text", "--from-string", "7", "--encoder", "integer", NULL);
    addv(MAY, "add", W, "--meta", "text", "--from-string", "7", "--encoder", "id", NULL);
    addv(MUST, "set", W, "--meta", "missing", "--from-string", "x", NULL);
    addv(MUST, "set", W, "--meta", "text", NULL);
    addv(MUST, "set", W, "--meta", "text", "--from-string", longstr, NULL);
    addv(MUST, "set", W, "--meta", "text", "--from-string", "x", "--encoder", "nonsense", NULL);
    addv(MUST, "set", W, "--meta", "text", "--from-string", "1", "--encoder", "integer", NULL);
    addv(MUST, "set", W, "--meta", "text", "--from-string", "1", "--encoder", "id", NULL);
    addv(MUST, "set", W, "--meta", "num", "--from-string", "zz", "--encoder", "integer", NULL);
    addv(MUST, "set", W, "--meta", "num", "--from-string", "12zz", "--encoder", "integer", NULL);
    addv(MUST, "set", W, "--meta", "num", "--from-string", "99999999999999999999999", "--encoder", "integer", NULL);
    addv(MAY, "set", W, "--meta", "text", "--from-string", "012345678901234567890123456789012345678901234567890123456789", NULL);
    addv(MUST, "set", W, NULL);
    addv(MUST, "set", W, "--nonsense", NULL);
    addv(MUST, "delete", W, "--part", "missing", NULL);
    addv(MUST, "delete", W, NULL);
    addv(MAY, "delete", W, "--part", "data", NULL);
    addv(MAY, "delete", W, "--part", "excl", NULL);
    addv(MAY, "delete", W, "--part", "fs", "--keep-meta", NULL);
    addv(MUST, "transport", W, "--add", "--part-ref", "data", NULL);
    addv(MAY, "transport", W, "--add", "--part-ref", "data", "--encoder", "bsdiff", "--decoder", "bspatch", NULL);
    addv(MUST, "transport", W, NULL);
    addv(MUST, "transport", W, "--encode", NULL);
    addv(MUST, "transport", W, "--decode", NULL);
    addv(MUST, "transport", W, "--encode", "--decode", "--output", X, NULL);
    addv(MUST, "transport", W, "--encode", "--output", X, "--origin", MISS, NULL);
    addv(MUST, "transport", W, "--add", "--encode", "--output", X, NULL);
    addv(MUST, "transport", W, "--add", "--decode", "--output", X, NULL);
    addv(MUST, "transport", W, "--add", "--encode", "--decode", "--output", X, NULL);
    addv(MUST, "transport", W, "--add", "--part-ref", "data", "--encoder", "bsdiff", "--decoder", "bspatch", "--encode", "--output", X, NULL);
    addv(MUST, "transport", W, "--decode", "--add", "--part-ref", "data", "--encoder", "bsdiff", "--decoder", "bspatch", "--output", X, NULL);
    addv(MUST, "extract", W, "--part", "data", "--meta", "text", "--output", X, NULL);
    addv(MUST, "extract", W, "--meta", "text", "--part", "data", "--output", X, NULL);
    addv(MUST, "create", W, NULL);
    addv(MUST, "create", "-Y", "--hash-kind", "md5", W, NULL);
    addv(MUST, "create", "-Y", "--signature-kind", "none", W, NULL);
    static const char *const hk[] = {"", "sha", "sha25", "sha2566", "sha5", "sha512x", "sha38", "sha3844", "xsha256"}, *const sk[] = {"", "rsa", "rsa2048", "rsa40966", "prime256", "prime256v11", "secp384r", "secp384r11", "secp521", "secp521r1x"};
    for (int i = 0; i < 9; i++) addv(MUST, "create", "-Y", "--hash-kind", hk[i], W, NULL);
    for (int i = 0; i < 10; i++) addv(MUST, "create", "-Y", "--signature-kind", sk[i], W, NULL);
    addv(MUST, "extract", W, "--part", "missing", "--output", X, NULL);
    addv(MUST, "extract", W, "--meta", "missing", "--output", X, NULL);
    addv(MUST, "extract", W, NULL);
    addv(MUST, "generate", "nonsense", W, NULL);
    addv(MUST, "generate", NULL);
    addv(MUST, "generate", "id", NULL);
    addv(MUST, "generate", "keystore", NULL);
    addv(MUST, "generate", "keystore", W, NULL);
    addv(MUST, "generate", "keystore", "--name", "x", MISS, NULL);
    addv(MUST, "nonsense", W, NULL);
    addv(MUST, "show", NULL);
    addv(MUST, "show", MISS, NULL);
    addv(MUST, "show", W, "--nonsense", NULL);
    addv(MUST, "verify", W, "--keystore", MISS, NULL);
    addv(MUST, "compare", W, NULL);
    addv(MUST, "compare", W, MISS, NULL);
    addv(MUST, "delete", MISS, "--part", "data", NULL);
    addv(MUST, "delete", W, "--nonsense", NULL);
    addv(MUST, "add", W, "--part", "new", "--nonsense", "--from-file", SRC, NULL);
    addv(MUST, "sign", W, "--nonsense", NULL);
    addv(MUST, "create", "-Y", "--nonsense", W, NULL);
    addv(MUST, "extract", W, "--part", "data", "--meta", "text", "--nonsense", NULL);
}
/* read-only operations: the file never changes, whatever they return */
static int nr;
static struct { const char *a[12]; } RO[60];
static void addr_(const char *a0, ...)
{
    va_list ap;
    va_start(ap, a0);
    RO[nr].a[0] = a0;
    for (int i = 1; i < 12; i++) if (!(RO[nr].a[i] = va_arg(ap, const char *))) break;
    va_end(ap);
    nr++;
}
static void build_ro(void)
{
    addr_("show", W, NULL);
    addr_("show", "-v", W, NULL);
    addr_("show", "--hash", W, NULL);
    addr_("show", "--binary-hash", W, NULL);
    addr_("show", "--part-hash", "data", W, NULL);
    addr_("show", "--part", "data", W, NULL);
    addr_("show", "--meta", "text", W, NULL);
    addr_("verify", W, "--key", dupstr(pu_key("p256-a.pub.pem")), NULL);
    addr_("verify", W, "--key", dupstr(pu_key("p256-b.pub.pem")), NULL);
    addr_("verify", W, "--keystore", W, NULL);
    addr_("verify", W, NULL);
    addr_("extract", W, "--part", "data", "--output", X, NULL);
    addr_("extract", W, "--part", "fs", NULL);
    addr_("extract", W, "--meta", "text", "--output", X, NULL);
    addr_("compare", W, ORGF, NULL);
    addr_("compare", ORGF, W, NULL);
    addr_("compare", W, W, NULL);
    addr_("generate", "keystore", "--name", "a", W, NULL);
    addr_("transport", W, "--encode", "--origin", ORGF, "--output", X, NULL);
    addr_("transport", W, "--encode", "--origin", WRONGF, "--output", X, NULL);
    addr_("transport", W, "--encode", "--output", X, NULL);
    addr_("transport", W, "--decode", "--origin", ORGF, "--output", X, NULL);
    addr_("transport", W, "--decode", "--origin", WRONGF, "--output", X, NULL);
    addr_("transport", W, "--decode", "--output", X, NULL);
    addr_("transport", DELTA, "--decode", "--origin", W, "--output", X, NULL);
    addr_("transport", ORGF, "--encode", "--origin", W, "--output", X, NULL);
    addr_("verify", ORGF, "--keystore", W, NULL);
}
static int cs, base;
static int runv(const char **a)
{
    char *argv[16] = {"bpak"};
    int n = 1;
    for (int i = 0; i < 12 && a[i]; i++) argv[n++] = (char *)a[i];
    argv[n] = NULL;
    return toolv(NULL, argv);
}
static const char *cl(const char **a)
{
    static char b[700];
    b[0] = 0;
    for (int i = 0; i < 12 && a[i]; i++) { strncat(b, strrchr(a[i], '/') ? strrchr(a[i], '/') + 1 : a[i], 60); strcat(b, " "); }
    return b;
}
static void batch_v(int *res)
{
    for (int i = 0; i < 8 && base + i < nv; i++) {
        mc_write_file(W, img[cs], il[cs]);
        res[i] = runv(V[base + i].a);
        if (res[i]) MC_CHECK(same(W, img[cs], il[cs]), "state '%s': the refused command '%s' (exit %d) changed the archive", sn[cs], cl(V[base + i].a), res[i]);
        if (V[base + i].must) MC_CHECK(res[i], "state '%s': the command '%s' should be refused but succeeds", sn[cs], cl(V[base + i].a));
    }
}
static uint8_t *org_img;
static size_t org_len;
static void batch_r(int *res)
{
    for (int i = 0; i < 8 && base + i < nr; i++) {
        mc_write_file(W, img[cs], il[cs]);
        res[i] = runv(RO[base + i].a);
        MC_CHECK(same(W, img[cs], il[cs]), "state '%s': the read-only command '%s' (exit %d) changed the archive", sn[cs], cl(RO[base + i].a), res[i]);
        MC_CHECK(same(ORGF, org_img, org_len), "the command '%s' changed the origin archive", cl(RO[base + i].a));
    }
}
/* create on an existing file asks; everything but Y leaves the file alone */
static const char *ANS[] = {"", "\n", "N", "N\n", "n\n", "y\n", "No\n", " Y\n", "1\n", "\nY\n", "X", "\xff", "Y", "Y\n"};
#define NANS ((int)(sizeof ANS / sizeof *ANS))
static void batch_ask(int *res)
{
    for (int i = 0; i < 8 && base + i < NANS; i++) {
        const char *a[12] = {"create", W, "--hash-kind", "sha512", "--signature-kind", "secp521r1", NULL}, *b[12] = {"create", X, "--hash-kind", "sha512", "--signature-kind", "secp521r1", NULL};
        size_t n;
        uint8_t *fresh;
        unlink(X);
        MC_CHECK(runv(b) == 0 && (fresh = mc_read_file(X, &n)), "create of a new archive fails");
        mc_write_file(W, img[cs], il[cs]);
        mc_write_file(X, ANS[base + i], strlen(ANS[base + i]));
        FILE *o = stdin;
        if (!(stdin = fopen(X, "r"))) mc_die("open");
        res[i] = runv(a);
        fclose(stdin);
        stdin = o;
        if (ANS[base + i][0] == 'Y') MC_CHECK(res[i] == 0 && same(W, fresh, n), "state '%s': create with the answer Y (exit %d) does not leave a new archive", sn[cs], res[i]);
        else MC_CHECK(res[i] && same(W, img[cs], il[cs]), "state '%s': create with the answer %d (exit %d) changed the archive or succeeded", sn[cs], base + i, res[i]);
        free(fresh);
    }
}
static void tool_part(void)
{
    int res[8];
    build_ops();
    build_ro();
    org_img = mc_read_file(ORGF, &org_len);
    for (cs = 0; cs < NS; cs++) {
        /* an empty file opened for modification becomes a new archive by design */
        for (base = 0; cs != S_EMPTY && base < nv; base += 8) {
            if (!mc_mine()) continue;
            mc_case("tool, state '%s', refused commands from %d", sn[cs], base);
            tool_batch(batch_v, res, 8);
            for (int i = 0; i < 8 && base + i < nv; i++) { mc_eval(1); mc_trans(1); mc_distinct(mc_hash(&res[i], 4, base + i)); mc_state(mc_hash(&cs, 4, base + i)); }
        }
        for (base = 0; base < NANS; base += 8) {
            if (!mc_mine()) continue;
            mc_case("tool, state '%s', answers to create from %d", sn[cs], base);
            tool_batch(batch_ask, res, 8);
            for (int i = 0; i < 8 && base + i < NANS; i++) { mc_eval(1); mc_trans(1); mc_distinct(mc_hash(&res[i], 4, 2000 + base + i)); mc_state(mc_hash(&cs, 4, 2000 + base + i)); }
        }
        for (base = 0; base < nr; base += 8) {
            if (!mc_mine()) continue;
            mc_case("tool, state '%s', read-only commands from %d", sn[cs], base);
            tool_batch(batch_r, res, 8);
            for (int i = 0; i < 8 && base + i < nr; i++) { mc_eval(1); mc_trans(1); mc_distinct(mc_hash(&res[i], 4, 1000 + base + i)); mc_state(mc_hash(&cs, 4, 1000 + base + i)); }
        }
    }
}
/* ---- library: refused operations on an open handle, then a valid one ---- */
static struct bpak_package P;
static const char *fn[] = {"nothing", "add existing", "add missing file", "add directory", "add key missing", "add key undecodable", "add key rsa2048", "add key existing", "tree existing", "tree missing file",
                           "tree with stray tree part", "tree with stray salt", "tree with stray root hash", "delete unknown", "sign missing key", "sign undecodable key", "sign with public key", "sign unsupported key",
                           "signature too large", "signature of 64 KiB", "extract unknown", "hash of unknown part", "metadata existing", "metadata too large", "transport metadata existing", "add with tree of a new file", "encode with wrong origin", "decode with wrong origin", "extract to directory", "tree of a file of odd size", "delete a part", "delete all parts", "sign"};
#define NF ((int)(sizeof fn / sizeof *fn))
static int refused(int k)
{
    struct bpak_meta_header *m;
    static uint8_t big[70000];
    uint8_t hash[32];
    switch (k) {
    case 0: return 1;
    case 1: return bpak_pkg_add_file(&P, SRC, "data", 0);
    case 2: return bpak_pkg_add_file(&P, MISS, "new1", 0);
    case 3: return bpak_pkg_add_file(&P, DIR_, "new2", 0);
    case 4: return bpak_pkg_add_key(&P, MISS, "new3", 0);
    case 5: return bpak_pkg_add_key(&P, TKEY, "new4", 0);
    case 6: return bpak_pkg_add_key(&P, pu_key("bad-rsa2048.pem"), "new4", 0);
    case 7: return bpak_pkg_add_key(&P, pu_key("p256-a.pub.pem"), "data", 0);
    case 8: return bpak_pkg_add_file_with_merkle_tree(&P, BIG, "data", 0);
    case 9: return bpak_pkg_add_file_with_merkle_tree(&P, MISS, "new5", 0);
    case 10: return bpak_pkg_add_file_with_merkle_tree(&P, BIG, "zz", 0);
    case 11: return bpak_pkg_add_file_with_merkle_tree(&P, BIG, "yy", 0);
    case 12: return bpak_pkg_add_file_with_merkle_tree(&P, BIG, "xx", 0);
    case 13: return bpak_pkg_delete_part(&P, 12345, true);
    case 14: return bpak_pkg_sign(&P, MISS);
    case 15: return bpak_pkg_sign(&P, TKEY);
    case 16: return bpak_pkg_sign(&P, pu_key("p256-a.pub.pem"));
    case 17: return bpak_pkg_sign(&P, pu_key("bad-rsa2048.pem"));
    case 18: return bpak_pkg_write_raw_signature(&P, big, 513);
    case 19: return bpak_pkg_write_raw_signature(&P, big, 65536 + 70);
    case 20: return bpak_pkg_extract_file(&P, 12345, X);
    case 21: return bpak_pkg_part_sha256(&P, hash, 32, 12345);
    case 22: return bpak_add_meta(&P.header, pu_id("text"), 0, 5, &m);
    case 23: return bpak_add_meta(&P.header, pu_id("newm"), 0, 1921, &m);
    case 24: return bpak_add_transport_meta(&P.header, pu_id("data"), 1, 2);
    case 25: return bpak_pkg_add_file_with_merkle_tree(&P, BIG, "new6", 0);
    case 26: case 27: {
        struct bpak_package o, g;
        if (bpak_pkg_open(&o, X, "wb+") || bpak_pkg_open(&g, WRONGF, "rb")) mc_die("open");
        int rc = k == 26 ? bpak_pkg_transport_encode(&P, &o, &g) : bpak_pkg_transport_decode(&P, &o, &g);
        bpak_pkg_close(&o); bpak_pkg_close(&g);
        return rc;
    }
    case 28: return bpak_pkg_extract_file(&P, pu_id("data"), DIR_);
    case 29: return bpak_pkg_add_file_with_merkle_tree(&P, JUNK, "new7", 0);
    case 30: return bpak_pkg_delete_part(&P, pu_id("fs"), true);
    case 31: return bpak_pkg_delete_all_parts(&P, true);
    case 32: return bpak_pkg_sign(&P, pu_key("p256-a.pem"));
    }
    return 1;
}
static const char *vn[] = {"nothing", "add part", "add metadata", "delete part", "delete all", "add key", "write header", "add tree"};
static int valid(int k)
{
    struct bpak_meta_header *m;
    srandom(1);
    switch (k) {
    case 0: return 0;
    case 1: return bpak_pkg_add_file(&P, SRC, "valid", 0);
    case 2: { int rc = bpak_add_meta(&P.header, pu_id("vm"), 0, 9, &m); if (!rc) memcpy(P.header.metadata + m->offset, "ABCDEFGH", 9); return rc ? rc : bpak_pkg_write_header(&P); }
    case 3: return bpak_pkg_delete_part(&P, pu_id("data"), true);
    case 4: return bpak_pkg_delete_all_parts(&P, false);
    case 5: return bpak_pkg_add_key(&P, pu_key("p256-a.pub.pem"), "valid", 0);
    case 6: return bpak_pkg_write_header(&P);
    default: return bpak_pkg_add_file_with_merkle_tree(&P, BIG, "valid", 0);
    }
}
static void lib_part(void)
{
    uint8_t *ref[8];
    size_t rl[8];
    int rrc[8];
    for (int s = 0; s < S_EMPTY; s++) {
        for (int v = 0; v < 8; v++) {
            mc_write_file(F, img[s], il[s]);
            if (bpak_pkg_open(&P, F, "rb+")) mc_fail("opening the '%s' archive fails", sn[s]);
            rrc[v] = valid(v);
            bpak_pkg_close(&P);
            ref[v] = mc_read_file(F, &rl[v]);
            if (rrc[v]) MC_CHECK(same(F, img[s], il[s]), "state '%s': the refused operation '%s' changed the archive", sn[s], vn[v]);
        }
        for (int a = 0; a < NF; a++)
            for (int b = 0; b < NF; b++)
            for (int d = 0; d < (mc_thorough ? NF : 1); d++) {
                if (!mc_mine()) continue;
                for (int v = 0; v < 8; v++) {
                    mc_case("library, state '%s': %s; %s; %s; then %s", sn[s], fn[a], fn[b], fn[d], vn[v]);
                    mc_write_file(F, img[s], il[s]);
                    if (bpak_pkg_open(&P, F, "rb+")) mc_fail("open");
                    bool ok = true;
                    for (int i = 0; i < 3 && ok; i++) {
                        int op = i == 0 ? a : i == 1 ? b : d;
                        int rc = refused(op);
                        mc_trans(1);
                        mc_distinct(mc_hash(&rc, 4, op));
                        if (rc == 0) { ok = false; break; } /* not refused in this state */
                        fflush(P.fp);
                        MC_CHECK(same(F, img[s], il[s]), "the refused operation '%s' (%d) changed the archive", fn[op], rc);
                    }
                    int rc = ok ? valid(v) : 0;
                    bpak_pkg_close(&P);
                    if (!ok) break;
                    mc_eval(1);
                    MC_CHECK(rc == rrc[v], "'%s' after refused operations returns %d instead of %d", vn[v], rc, rrc[v]);
                    MC_CHECK(same(F, ref[v], rl[v]), "'%s' after the refused operations '%s', '%s', '%s' produces a different archive", vn[v], fn[a], fn[b], fn[d]);
                    mc_state(mc_hash(&v, 4, mc_hash(&s, 4, a * 10000 + b * 100 + d)));
                }
            }
        for (int v = 0; v < 8; v++) free(ref[v]);
    }
}
int mc_run(void)
{
    pu_fill(R, sizeof R, 31);
    strcpy(F, mc_path("f")); strcpy(W, mc_path("w")); strcpy(X, mc_path("x")); strcpy(ORGF, mc_path("org")); strcpy(SRC, mc_path("src")); strcpy(BIG, mc_path("big")); strcpy(EMPTY, mc_path("empty"));
    strcpy(DIR_, mc_path("dir")); strcpy(MISS, mc_path("missing")); strcpy(LONG, mc_path("longsig")); strcpy(SIG, mc_path("sig")); strcpy(WRONGF, mc_path("wrong")); strcpy(NOIDF, mc_path("noid")); strcpy(DELTA, mc_path("delta"));
    strcpy(TXT, mc_path("txt")); strcpy(JUNK, mc_path("junk")); strcpy(SIG0, mc_path("sig0"));
    mkdir(DIR_, 0755);
    mc_write_file(SRC, R, 700); mc_write_file(BIG, R, 8192); mc_write_file(EMPTY, R, 0); mc_write_file(LONG, R, 513); mc_write_file(SIG, R, 70); mc_write_file(JUNK, R, 3000); mc_write_file(SIG0, R, 0);
    memset(longstr, 'a', 2000); memset(hugestr, 'b', 1915);
    strcpy(TKEY, mc_path("tkey.pem")); strcpy(TPUB, mc_path("tpub.pem"));
    size_t kl;
    uint8_t *kb = mc_read_file(pu_key("p256-a.pem"), &kl);
    mc_write_file(TKEY, kb, kl - 60); free(kb);
    kb = mc_read_file(pu_key("p256-a.pub.pem"), &kl);
    mc_write_file(TPUB, kb, kl - 60); free(kb);
    states();
    tool_part();
    lib_part();
    return 0;
}
