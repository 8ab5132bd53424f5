#ifndef SCEN_H
#define SCEN_H
#include "mc.h"
#include <getopt.h>
enum {
    C_OUT = 1,  /* the standard output is part of the result */
    C_SIGN = 2, /* the signature is checked by verification */
    C_NOA = 4,  /* no archive to begin with */
    C_FAIL = 8, /* the operation is refused or fails */
    C_SLOW = 16, /* expensive, not repeated for every fault */
};
struct sc { const char *name; int (*fn)(void); const char *argv[14]; int flags; const char *watch[1]; };
const struct sc *sc_list(int *n);
void sc_setup(void);
void sc_restore(const struct sc *s); /* initial files of a scenario */
int sc_call(const struct sc *s);
void sc_watch(const struct sc *s, char *path); /* the file that holds the result */
bool sc_result_ok(const struct sc *s, const uint8_t *d, size_t n, const uint8_t *ref, size_t refn, const char **why);
#endif
