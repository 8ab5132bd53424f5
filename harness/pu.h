/* Independent archive construction / parsing for the harnesses. Uses only the public
 * on-disk structure definition and mbedtls / libc primitives, never the library's logic. */
#ifndef PU_H
#define PU_H
#include "mc.h"
#include <bpak/bpak.h>

#define PU_MAXDATA (1 << 22)
struct pu {
    struct bpak_header h;
    uint8_t *data; /* everything after the header */
    size_t len, cap;
};
uint32_t pu_crc(uint32_t crc, const void *p, size_t n); /* bitwise CRC-32 */
uint32_t pu_id(const char *s);
uint32_t pu_tree_id(uint32_t part_id);
void pu_init(struct pu *p, int hash_kind);
void pu_free(struct pu *p);
void pu_copy(struct pu *dst, const struct pu *src);
struct bpak_part_header *pu_part(struct pu *p, uint32_t id, const void *d, size_t n, int flags);
/* transport-encoded part: `d` is the encoded stream, size/pad describe the decoded part */
struct bpak_part_header *pu_part_t(struct pu *p, uint32_t id, const void *d, size_t n, uint64_t size, int pad, int flags);
struct bpak_meta_header *pu_meta(struct pu *p, uint32_t id, uint32_t ref, const void *d, size_t n);
void pu_transport(struct pu *p, uint32_t part, const char *enc, const char *dec);
void pu_uuid(struct pu *p, int variant); /* bpak-package identity */
void pu_rehash(struct pu *p);
size_t pu_digest(int hash_kind, const void *p, size_t n, uint8_t *out);
size_t pu_header_digest(const struct bpak_header *h, uint8_t *out);
void pu_payload_digest(const struct bpak_header *h, const uint8_t *data, uint8_t *out); /* 64 bytes, zero filled */
void pu_sign(struct pu *p, const char *pem);                   /* mbedtls directly */
bool pu_verify_sig(const struct bpak_header *h, const char *pubpem);
void pu_save(const struct pu *p, const char *path);
bool pu_load(struct pu *p, const char *path);
size_t pu_stored(const struct bpak_part_header *p);
size_t pu_offset(const struct bpak_header *h, int idx); /* absolute file offset */
int pu_find(const struct bpak_header *h, uint32_t id);
const char *pu_key(const char *name); /* path of /verif/keys/<name> */
/* reference hash tree: returns tree (malloc) and fills size and root */
uint8_t *pu_merkle(const uint8_t *d, size_t n, const uint8_t *salt, size_t saltlen, size_t *tree_len, uint8_t root[32]);
/* adds "<name>" and its tree part plus salt/root metadata */
void pu_merkle_parts(struct pu *p, const char *name, const void *d, size_t n, int flags, uint8_t saltbyte);
/* deterministic content */
void pu_fill(uint8_t *b, size_t n, uint32_t seed);

/* run the command line tool in a forked child; stdout -> out file ("" = discard).
 * Returns exit code 0..255; a signal or sanitizer report is a violation. */
int tool(const char *out, const char *arg0, ...) __attribute__((sentinel));
int toolv(const char *out, char **argv);
/* run fn in one forked child; tool commands inside it run in that child, one after the
 * other, without output. fn stores up to max results. */
void tool_batch(void (*fn)(int *results), int *results, int max);
/* when set, commands run in this very process (a crash ends the shard and is reported
 * for the journalled case); much faster, output redirection works */
extern bool pu_inproc;
extern unsigned long pu_fsize; /* file size limit of the tool child */
extern int bpak_tool_main(int argc, char **argv) __attribute__((weak));
/* the text the tool shows for an entry ("": none, at most 127 characters) and the name of a well known id ("": none) */
void pu_meta_text(const struct bpak_header *h, const struct bpak_meta_header *m, char *o);
const char *pu_meta_name(uint32_t id);
#endif
