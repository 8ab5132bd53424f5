/* C15: only the matching origin is accepted by transport encode and decode. */
#include "mc.h"
#include "pu.h"
#include <bpak/pkg.h>
#include <unistd.h>

static uint8_t R[20000];
enum { PK_COPY, PK_HS, PK_NC, PK_LZ, PK_TREE, NPK };
static const char *pn[] = {"copy", "bsdiff", "bsdiff-no-comp", "bsdiff-lzma", "fs+tree"};
static const char *en[] = {"", "bsdiff", "bsdiff-no-comp", "bsdiff-lzma"}, *dn[] = {"", "bspatch", "bspatch-no-comp", "bspatch-lzma"};
static struct pu T, O, G, A;
static char tf[300], of[300], gf[300], ef[300], df[300], xf[300];

static void layout(struct pu *p, int lay, int ident)
{
    /* ident: 0 none, 1 reference identity, 2+i differs in byte i, 18 all bytes differ;
     * + 100 * kind of identity: text, first byte zero, zero in the middle, all zero, all ones */
    uint8_t u[16];
    int kind = ident / 100;
    ident %= 100;
    for (int i = 0; i < 16; i++) u[i] = kind == 3 ? 0 : kind == 4 ? 0xff : 0x30 + i;
    if (kind == 1) u[0] = 0;
    if (kind == 2) u[7] = 0;
    if (ident >= 2 && ident < 18) u[ident - 2] ^= ident % 2 ? 1 : 0x80;
    if (ident == 18) for (int i = 0; i < 16; i++) u[i] ^= 0xff;
    if (lay >= 1) pu_meta(p, pu_id("bpak-version"), 0, "1.0", 4);
    if (lay >= 2) pu_meta(p, pu_id("other"), 0, "0000000000000000000000", 22);
    if (lay == 3) pu_meta(p, pu_id("bpak-package"), pu_id("p"), "0123456789abcdef", 16); /* bound to a part: not the package identity */
    if (ident) pu_meta(p, pu_id("bpak-package"), 0, u, 16);
}
static void parts(struct pu *p, int pk, bool target, bool lack)
{
    if (lack) { pu_part(p, pu_id("unrelated"), R, 300, 0); return; }
    if (pk == PK_TREE) {
        pu_merkle_parts(p, "p", R + (target ? 100 : 0), 8192, 0, 3);
        if (target) pu_transport(p, pu_tree_id(pu_id("p")), "remove-data", "merkle-generate");
    } else {
        uint8_t b[3000];
        memcpy(b, R, 3000);
        if (target) b[700]++;
        pu_part(p, pu_id("p"), b, target ? 2000 : 2100, 0);
        if (target && pk) pu_transport(p, pu_id("p"), en[pk], dn[pk]);
    }
}
static int lib(bool enc, const char *in, const char *out, const char *orgf)
{
    static struct bpak_package i, o, g;
    if (bpak_pkg_open(&i, in, "rb")) mc_fail("cannot open %s", in);
    if (bpak_pkg_open(&o, out, "wb+")) mc_fail("cannot open output");
    if (orgf && bpak_pkg_open(&g, orgf, "rb")) mc_fail("cannot open origin");
    int rc = enc ? bpak_pkg_transport_encode(&i, &o, orgf ? &g : NULL) : bpak_pkg_transport_decode(&i, &o, orgf ? &g : NULL);
    mc_trans(1);
    bpak_pkg_close(&i); bpak_pkg_close(&o);
    if (orgf) bpak_pkg_close(&g);
    return rc;
}
static void one(int pk, int tl, int ti, int ol, int oi, bool lack, bool noorg, bool use_tool)
{
    pu_init(&T, 1); pu_init(&O, 1); pu_init(&G, 1);
    layout(&T, tl, ti); parts(&T, pk, true, false); pu_rehash(&T);
    layout(&O, ol, oi); parts(&O, pk, false, lack); pu_rehash(&O);
    layout(&G, tl, ti); parts(&G, pk, false, false); pu_rehash(&G); /* a good origin for T, to obtain an encoding */
    bool diff = pk == PK_HS || pk == PK_NC || pk == PK_LZ;
    pu_save(&T, tf); pu_save(&O, of);
    bool match = ti % 100 && oi % 100 && ti == oi;
    const char *o = noorg ? NULL : of;
    bool accept = noorg ? !diff : match && !(lack && diff);
    bool check = noorg || !match || !(lack && pk == PK_TREE); /* unspecified: matching origin without the tree part */
    int rc = use_tool ? tool("", "transport", tf, "--encode", "--output", xf, o ? "--origin" : NULL, o, NULL) : lib(true, tf, xf, o);
    if (check) MC_CHECK((rc == 0) == accept, "encode returned %d, origin should be %s", rc, accept ? "accepted" : "refused");
    mc_distinct(mc_hash(&rc, 4, accept));
    /* an encoded version of T, made with a proper origin when T has an identity; else patched up */
    if (ti % 100) {
        pu_save(&G, gf);
        rc = lib(true, tf, ef, gf);
        MC_CHECK(rc == 0, "encode with the proper origin returned %d", rc);
    } else {
        struct pu T1; pu_init(&T1, 1);
        layout(&T1, tl, 1); parts(&T1, pk, true, false); pu_rehash(&T1); pu_save(&T1, xf);
        pu_free(&G); pu_init(&G, 1); layout(&G, tl, 1); parts(&G, pk, false, false); pu_rehash(&G); pu_save(&G, gf);
        rc = lib(true, xf, ef, gf);
        MC_CHECK(rc == 0, "encode with the proper origin returned %d", rc);
        if (!pu_load(&A, ef)) mc_die("load");
        memcpy(A.h.meta, T.h.meta, sizeof T.h.meta); memcpy(A.h.metadata, T.h.metadata, 1920);
        pu_save(&A, ef);
        pu_free(&T1);
    }
    rc = use_tool ? tool("", "transport", ef, "--decode", "--output", df, o ? "--origin" : NULL, o, NULL) : lib(false, ef, df, o);
    mc_eval(2);
    mc_state(mc_hash(&rc, 4, mc_hash(&T.h.meta, sizeof T.h.meta, mc_hash(&O.h, 4096, noorg))));
    mc_distinct(mc_hash(&rc, 4, 2 + accept));
    if (check) MC_CHECK((rc == 0) == accept, "decode returned %d, origin should be %s", rc, accept ? "accepted" : "refused");
    if (rc == 0 && check) {
        if (!pu_load(&A, df)) mc_fail("decoded package unreadable");
        MC_CHECK(A.len == T.len && !memcmp(A.data, T.data, T.len) && !memcmp(&A.h, &T.h, 4096), "decode succeeded but the result differs from the target");
    }
    pu_free(&T); pu_free(&O); pu_free(&G);
}
int mc_run(void)
{
    pu_fill(R, sizeof R, 4);
    strcpy(tf, mc_path("t")); strcpy(of, mc_path("o")); strcpy(gf, mc_path("g")); strcpy(ef, mc_path("e")); strcpy(df, mc_path("d")); strcpy(xf, mc_path("x"));
    for (int kind = 1; kind < 5; kind++)
        for (int pk = 0; pk < NPK; pk++)
            for (int l = 0; l < 4; l++)
                for (int oi = 0; oi < 19; oi++)
                    for (int ti = 0; ti < 2; ti++)
                        for (int ut = 0; ut < 2; ut++) {
                            if (ut && !mc_thorough && oi > 2 && oi != 9 && oi < 17) continue;
                            if (!mc_mine()) continue;
                            mc_case("%s: parts %s, target identity %d kind %d, origin identity %d, layout %d", ut ? "tool" : "library", pn[pk], ti, kind, oi, l);
                            one(pk, l, ti ? kind * 100 + ti : 0, l, kind * 100 + oi, false, false, ut);
                        }
    for (int ut = 0; ut < 2; ut++)
        for (int pk = 0; pk < NPK; pk++)
            for (int tl = 0; tl < 4; tl++)
                for (int ol = 0; ol < 4; ol++)
                    for (int oi = 0; oi < 19; oi++)
                        for (int ti = 0; ti < 2; ti++)
                            for (int lack = 0; lack < 2; lack++)
                                for (int noorg = 0; noorg < 2; noorg++) {
                                    if (noorg && (ol || oi || lack)) continue;
                                    if (ut && !mc_thorough && ((tl + ol) % 2 || (oi > 3 && oi < 18))) continue;
                                    if (!ut && !mc_thorough && pk == PK_LZ && tl != ol) continue;
                                    if (!mc_mine()) continue;
                                    mc_case("%s: parts %s, target identity %d layout %d, origin %s identity %d layout %d%s", ut ? "tool" : "library", pn[pk], ti, tl,
                                            noorg ? "absent" : "given", oi, ol, lack ? " lacking the part" : "");
                                    one(pk, tl, ti, ol, oi, lack, noorg, ut);
                                }
    pu_free(&A);
    return 0;
}
