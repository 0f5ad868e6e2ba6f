// The random numbers of the GTgraph programs, as the environment says: GT_SEED, GT_MODE.
#include "common.h"
#include <cstdint>
namespace {
uint64_t state[4] = {0, 0, 0, 0};
long drawn[4];
int opened, mode;
uint64_t next(int s) {
    uint64_t z = (state[s] += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
double plan(int s) {
    double r = (next(s) >> 11) * (1.0 / 9007199254740992.0);
    long k = drawn[s]++;
    if (k > 100000) return r;                                    // whatever the plan, let it finish
    switch (mode) {
        case 1: return (k / 61) % 3 ? r : 0.0;
        case 2: return (k / 61) % 3 ? r : 0.9999999;
        case 3: return (k / 61) % 3 ? r * 0.1 : r;               // mostly small
        case 4: return (next(s) % 4) * 0.25;
        case 5: return (k / 61) % 3 ? 0.0 : r;
        default: return r;
    }
}
}
extern "C" {
int *init_rng(int, int, int, int, int) {
    const char *s = getenv("GT_SEED"), *m = getenv("GT_MODE");
    int *p = (int *) malloc(sizeof(int));
    *p = opened++ % 4;
    state[*p] = (s ? strtoull(s, nullptr, 10) : 1) * 77 + *p * 12345;
    mode = m ? atoi(m) : 0;
    return p;
}
double get_rn_dbl(int *s) { return plan(*s); }
int get_rn_int(int *s) { double d = plan(*s); return int(d * 2147483647.0); }
}
