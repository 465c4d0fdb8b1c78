// Shadow-model groups: every registered function anchoring a property is compared with the extended-precision model.
#include "vp.h"
static void run_shadow(const char* prop, Rng& r, long idx) {
    static std::map<std::string, std::vector<const Fn*>> cache;
    auto& v = cache[prop]; if (v.empty()) v = fns_of(prop);
    if (v.empty()) { fprintf(stderr, "no registered functions for %s\n", prop); std::exit(2); }
    shadow_burst(r, *v[idx % v.size()]);
}
#define SHADOW(P, NQ, NT) GROUP(#P, shadow_##P, NQ, NT) { run_shadow(#P, r, idx); }
SHADOW(P05, 40000, 2000000)
SHADOW(P07, 60000, 2000000)
SHADOW(P08, 60000, 2000000)
SHADOW(P09, 120000, 4000000)
SHADOW(P10, 120000, 4000000)
SHADOW(P11, 120000, 4000000)
SHADOW(P12, 160000, 4000000)
SHADOW(P13, 160000, 4000000)
SHADOW(P14, 200000, 6000000)
SHADOW(P15, 60000, 2000000)
SHADOW(P16, 100000, 3000000)
SHADOW(P17, 4000, 120000)
SHADOW(P18, 100000, 3000000)
SHADOW(P19, 12000, 400000)
SHADOW(P20, 100000, 3000000)
SHADOW(P21, 80000, 3000000)
SHADOW(P22, 12000, 400000)
SHADOW(P23, 20000, 600000)
SHADOW(P24, 60000, 2000000)
SHADOW(P25, 100000, 3000000)
SHADOW(P26, 20000, 200000)
SHADOW(P27, 16000, 400000)
SHADOW(P28, 100000, 3000000)
SHADOW(P30, 40000, 1000000)
SHADOW(P31, 80000, 2000000)
SHADOW(P32, 80000, 2000000)
