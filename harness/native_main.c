/* Native side of replay: feeds the recorded values to the harness.  usage: prog VALUES_FILE
 * exit 0: ran to the end; 99: a CHECK failed; 77: an assumption does not hold on these values;
 * 78: ran out of recorded values; anything else: signal/sanitizer. */
#include <stdio.h>
#include "vh.h"
static unsigned long long *vals; static size_t nvals, pos;
uint64_t vh_next(const char *kind) {
    (void)kind;
    if (pos >= nvals) { printf("VH-EXHAUSTED after %zu\n", nvals); fflush(stdout); _Exit(78); }
    return vals[pos++];
}
void vh_assume(int c, const char *t) { if (!c) { printf("VH-ASSUME %s\n", t); fflush(stdout); _Exit(77); } }
void vh_check(int c, const char *m) { if (!c) { printf("VH-CHECK-FAILED %s\n", m); fflush(stdout); _Exit(99); } }
void vh_reach(const char *l) { printf("VH-REACH %s\n", l); fflush(stdout); }
static char **params; static int nparams;
long vh_param(int i) { if (i >= nparams) return 0; /* as in the encoding */ return atol(params[i]); }
void VH_ENTRY(void);
int main(int argc, char **argv) {
    FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL; unsigned long long v; size_t cap = 0;
    if (!f) return 76;
    while (fscanf(f, "%llu", &v) == 1) { if (nvals == cap) { cap = cap ? 2 * cap : 256; vals = realloc(vals, cap * sizeof *vals); } vals[nvals++] = v; }
    fclose(f);
    params = argv + 2; nparams = argc - 2;
    VH_ENTRY();
    printf("VH-DONE\n"); fflush(stdout); _Exit(0);
}
