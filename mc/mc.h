/* Small explicit-exploration runtime shared by all C harnesses. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern int mc_thorough;          /* 1 in the thorough tier */
extern int mc_shard, mc_nshards; /* this process explores cases i with i % nshards == shard */
extern const char *mc_scratch;   /* private scratch directory of this process */
extern const char *mc_repo;      /* repository root (for test key files etc) */

/* Enumerate cases: true when the next case belongs to this shard. */
bool mc_mine(void);
/* Journal the case about to run (survives a crash) and arm the CPU watchdog. */
void mc_case(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_case_add(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_watchdog(int cpu_seconds);
/* Report a violation for the journalled case and stop this shard. A violation
 * whose key is listed as a known finding is recorded and exploration goes on. */
void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool mc_known(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/* Harness trouble (not a property violation). */
void mc_die(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
bool mc_state(uint64_t h);       /* add to the state set; true when new */
bool mc_distinct(uint64_t h);    /* add to the distinct-outcome set */
void mc_trans(uint64_t n);       /* transitions executed on the implementation */
void mc_eval(uint64_t n);        /* complete executions checked against the oracle */
void mc_note(const char *name, uint64_t n); /* named counter */
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
const char *mc_hex(const void *p, size_t n); /* static ring of buffers */

/* file helpers (scratch only) */
void mc_write_file(const char *path, const void *data, size_t n);
uint8_t *mc_read_file(const char *path, size_t *n); /* NULL when missing; malloc'ed, n+1 alloc */
const char *mc_path(const char *name);              /* scratch path, ring of buffers */

int mc_run(void); /* supplied by the harness */

#define MC_CHECK(cond, ...) do { if (!(cond)) mc_fail(__VA_ARGS__); } while (0)
#endif
