// Derived from cyberhull/slalib-cpp (GPL v2 or later); generated by tools/gen_ref.py, frozen reference model.
#include "slaref.h"
#include "slaref_f77.h"
#include <cmath>
#include <cstring>
#include <cstdint>
#include <algorithm>
// ---- nutc80

namespace slaref {
void nutc80(LDBL tdb, LDBL& psi, LDBL& eps, LDBL& eps0) {
    constexpr LDBL TURNS_2_ARCSECS = 1296000.0;
    constexpr LDBL ARCSECS_2_RADIANS = 0.484813681109535994e-5;
    constexpr LDBL UNITS_2_RADIANS = ARCSECS_2_RADIANS / 1.0e4;
    const LDBL centuries = (tdb - 51544.5) / 36525.0;
    const LDBL el = drange(ARCSECS_2_RADIANS * (485866.733 + (1325.0 * TURNS_2_ARCSECS + 715922.633 +
        (31.310 + 0.064 * centuries) * centuries) * centuries));
    const LDBL elp = drange(ARCSECS_2_RADIANS * (1287099.804 + (99.0 * TURNS_2_ARCSECS + 1292581.224 +
        (-0.577 - 0.012 * centuries) * centuries) * centuries));
    const LDBL f = drange(ARCSECS_2_RADIANS * (335778.877 + (1342.0 * TURNS_2_ARCSECS + 295263.137 +
        (-13.257 + 0.011 * centuries) * centuries) * centuries));
    const LDBL d = drange(ARCSECS_2_RADIANS * (1072261.307 + (1236.0 * TURNS_2_ARCSECS + 1105601.328 +
        (-6.891 + 0.019 * centuries) * centuries) * centuries));
    const LDBL om = drange(ARCSECS_2_RADIANS * (450160.280 + (-5.0 * TURNS_2_ARCSECS - 482890.539 +
        (7.455 + 0.008 * centuries) * centuries) * centuries));
    const LDBL el2 = el + el;
    const LDBL el3 = el2 + el;
    const LDBL elp2 = elp + elp;
    const LDBL f2 = f + f;
    const LDBL f4 = f2 + f2;
    const LDBL d2 = d + d;
    const LDBL d4 = d2 + d2;
    const LDBL om2 = om + om;
    LDBL dp = 0.0;
    LDBL de = 0.0;
    dp = dp + std::sin(elp + d);
    dp = dp - std::sin(f2 + d4 + om2);
    dp = dp + std::sin(el2 + d2);
    dp = dp - std::sin(el - f2 + d2);
    dp = dp - std::sin(el + elp - d2 + om);
    dp = dp - std::sin(-elp + f2 + om);
    dp = dp - std::sin(el - f2 - d2);
    dp = dp - std::sin(elp + d2);
    dp = dp - std::sin(f2 - d + om2);
    dp = dp - std::sin(-f2 + om);
    dp = dp + std::sin(-el - elp + d2 + om);
    dp = dp + std::sin(elp + f2 + om);
    dp = dp - std::sin(el + f2 - d2);
    dp = dp + std::sin(el3 + f2 - d2 + om2);
    dp = dp + std::sin(f4 - d2 + om2);
    dp = dp - std::sin(el + d2 + om);
    dp = dp - std::sin(el2 + f2 + d2 + om2);
    LDBL angle = el2 + f2 - d2 + om;
    dp = dp + std::sin(angle);
    de = de - std::cos(angle);
    dp = dp + std::sin(el - elp - d2);
    dp = dp + std::sin(-el + f4 + om2);
    angle = -el2 + f2 + d4 + om2;
    dp = dp - std::sin(angle);
    de = de + std::cos(angle);
    angle = el + f2 + d2 + om;
    dp = dp - std::sin(angle);
    de = de + std::cos(angle);
    angle = el + elp + f2 - d2 + om2;
    dp = dp + std::sin(angle);
    de = de - std::cos(angle);
    dp = dp - std::sin(el2 - d4);
    angle = -el + f2 + d4 + om2;
    dp = dp - 2.0 * std::sin(angle);
    de = de + std::cos(angle);
    angle = -el2 + f2 + d2 + om2;
    dp = dp + std::sin(angle);
    de = de - std::cos(angle);
    dp = dp - std::sin(el - d4);
    angle = -el + om2;
    dp = dp + std::sin(angle);
    de = de - std::cos(angle);
    angle = f2 + d + om2;
    dp = dp + 2.0 * std::sin(angle);
    de = de - std::cos(angle);
    dp = dp + 2.0 * std::sin(el3);
    angle = el + om2;
    dp = dp - 2.0 * std::sin(angle);
    de = de + std::cos(angle);
    angle = el2 + om;
    dp = dp + 2.0 * std::sin(angle);
    de = de - std::cos(angle);
    angle = -el + f2 - d2 + om;
    dp = dp - 2.0 * std::sin(angle);
    de = de + std::cos(angle);
    angle = el + elp + f2 + om2;
    dp = dp + 2.0 * std::sin(angle);
    de = de - std::cos(angle);
    angle = -elp + f2 + d2 + om2;
    dp = dp - 3.0 * std::sin(angle);
    de = de + std::cos(angle);
    angle = el3 + f2 + om2;
    dp = dp - 3.0 * std::sin(angle);
    de = de + std::cos(angle);
    angle = -el2 + om;
    dp = dp - 2.0 * std::sin(angle);
    de = de + std::cos(angle);
    angle = -el - elp + f2 + d2 + om2;
    dp = dp - 3.0 * std::sin(angle);
    de = de + std::cos(angle);
    angle = el - elp + f2 + om2;
    dp = dp - 3.0 * std::sin(angle);
    de = de + std::cos(angle);
    dp = dp + 3.0 * std::sin(el + f2);
    dp = dp - 3.0 * std::sin(el + elp);
    dp = dp - 4.0 * std::sin(d);
    dp = dp + 4.0 * std::sin(el - f2);
    dp = dp - 4.0 * std::sin(elp - d2);
    angle = el2 + f2 + om;
    dp = dp - 5.0 * std::sin(angle);
    de = de + 3.0 * std::cos(angle);
    dp = dp + 5.0 * std::sin(el - elp);
    angle = -d2 + om;
    dp = dp - 5.0 * std::sin(angle);
    de = de + 3.0 * std::cos(angle);
    angle = el + f2 - d2 + om;
    dp = dp + 6.0 * std::sin(angle);
    de = de - 3.0 * std::cos(angle);
    angle = f2 + d2 + om;
    dp = dp - 7.0 * std::sin(angle);
    de = de + 3.0 * std::cos(angle);
    angle = d2 + om;
    dp = dp - 6.0 * std::sin(angle);
    de = de + 3.0 * std::cos(angle);
    angle = el2 + f2 - d2 + om2;
    dp = dp + 6.0 * std::sin(angle);
    de = de - 3.0 * std::cos(angle);
    dp = dp + 6.0 * std::sin(el + d2);
    angle = el + f2 + d2 + om2;
    dp = dp - 8.0 * std::sin(angle);
    de = de + 3.0 * std::cos(angle);
    angle = -elp + f2 + om2;
    dp = dp - 7.0 * std::sin(angle);
    de = de + 3.0 * std::cos(angle);
    angle = elp + f2 + om2;
    dp = dp + 7.0 * std::sin(angle);
    de = de - 3.0 * std::cos(angle);
    dp = dp - 7.0 * std::sin(el + elp - d2);
    angle = -el + f2 + d2 + om;
    dp = dp - 10.0 * std::sin(angle);
    de = de + 5.0 * std::cos(angle);
    angle = el - d2 + om;
    dp = dp - 13.0 * std::sin(angle);
    de = de + 7.0 * std::cos(angle);
    angle = -el + d2 + om;
    dp = dp + 16.0 * std::sin(angle);
    de = de - 8.0 * std::cos(angle);
    angle = -el + f2 + om;
    dp = dp + 21.0 * std::sin(angle);
    de = de - 10.0 * std::cos(angle);
    dp = dp + 26.0 * std::sin(f2);
    de = de - std::cos(f2);
    angle = el2 + f2 + om2;
    dp = dp - 31.0 * std::sin(angle);
    de = de + 13.0 * std::cos(angle);
    angle = el + f2 - d2 + om2;
    dp = dp + 29.0 * std::sin(angle);
    de = de - 12.0 * std::cos(angle);
    dp = dp + 29.0 * std::sin(el2);
    de = de - std::cos(el2);
    angle = f2 + d2 + om2;
    dp = dp - 38.0 * std::sin(angle);
    de = de + 16.0 * std::cos(angle);
    angle = el + f2 + om;
    dp = dp - 51.0 * std::sin(angle);
    de = de + 27.0 * std::cos(angle);
    angle = -el + f2 + d2 + om2;
    dp = dp - 59.0 * std::sin(angle);
    de = de + 26.0 * std::cos(angle);
    angle = -el + om;
    dp = dp + (-58.0 - 0.1 * centuries) * std::sin(angle);
    de = de + 32.0 * std::cos(angle);
    angle = el + om;
    dp = dp + (63.0 + 0.1 * centuries) * std::sin(angle);
    de = de - 33.0 * std::cos(angle);
    dp = dp + 63.0 * std::sin(d2);
    de = de - 2.0 * std::cos(d2);
    angle = -el + f2 + om2;
    dp = dp + 123.0 * std::sin(angle);
    de = de - 53.0 * std::cos(angle);
    angle = el - d2;
    dp = dp - 158.0 * std::sin(angle);
    de = de - std::cos(angle);
    angle = el + f2 + om2;
    dp = dp - 301.0 * std::sin(angle);
    de = de + (129.0 - 0.1 * centuries) * std::cos(angle);
    angle = f2 + om;
    dp = dp + (-386.0 - 0.4 * centuries) * std::sin(angle);
    de = de + 200.0 * std::cos(angle);
    dp = dp + (712.0 + 0.1 * centuries) * std::sin(el);
    de = de - 7.0 * std::cos(el);
    angle = f2 + om2;
    dp = dp + (-2274.0 - 0.2 * centuries) * std::sin(angle);
    de = de + (977.0 - 0.5 * centuries) * std::cos(angle);
    dp = dp - std::sin(elp + f2 - d2);
    dp = dp + std::sin(-el + d + om);
    dp = dp + std::sin(elp + om2);
    dp = dp - std::sin(elp - f2 + d2);
    dp = dp + std::sin(-f2 + d2 + om);
    dp = dp + std::sin(el2 + elp - d2);
    dp = dp - 4.0 * std::sin(el - d);
    angle = elp + f2 - d2 + om;
    dp = dp + 4.0 * std::sin(angle);
    de = de - 2.0 * std::cos(angle);
    angle = el2 - d2 + om;
    dp = dp + 4.0 * std::sin(angle);
    de = de - 2.0 * std::cos(angle);
    angle = -elp + f2 - d2 + om;
    dp = dp - 5.0 * std::sin(angle);
    de = de + 3.0 * std::cos(angle);
    angle = -el2 + d2 + om;
    dp = dp - 6.0 * std::sin(angle);
    de = de + 3.0 * std::cos(angle);
    angle = -elp + om;
    dp = dp - 12.0 * std::sin(angle);
    de = de + 6.0 * std::cos(angle);
    angle = elp2 + f2 - d2 + om2;
    dp = dp + (-16.0 + 0.1 * centuries) * std::sin(angle);
    de = de + 7.0 * std::cos(angle);
    angle = elp + om;
    dp = dp - 15.0 * std::sin(angle);
    de = de + 9.0 * std::cos(angle);
    dp = dp + (17.0 - 0.1 * centuries) * std::sin(elp2);
    dp = dp - 22.0 * std::sin(f2 - d2);
    angle = el2 - d2;
    dp = dp + 48.0 * std::sin(angle);
    de = de + std::cos(angle);
    angle = f2 - d2 + om;
    dp = dp + (129.0 + 0.1 * centuries) * std::sin(angle);
    de = de - 70.0 * std::cos(angle);
    angle = -elp + f2 - d2 + om2;
    dp = dp + (217.0 - 0.5 * centuries) * std::sin(angle);
    de = de + (-95.0 + 0.3 * centuries) * std::cos(angle);
    angle = elp + f2 - d2 + om2;
    dp = dp + (-517.0 + 1.2 * centuries) * std::sin(angle);
    de = de + (224.0 - 0.6 * centuries) * std::cos(angle);
    dp = dp + (1426.0 - 3.4 * centuries) * std::sin(elp);
    de = de + (54.0 - 0.1 * centuries) * std::cos(elp);
    angle = f2 - d2 + om2;
    dp = dp + (-13187.0 - 1.6 * centuries) * std::sin(angle);
    de = de + (5736.0 - 3.1 * centuries) * std::cos(angle);
    dp = dp + std::sin(el2 - f2 + om);
    angle = -elp2 + f2 - d2 + om;
    dp = dp - 2.0 * std::sin(angle);
    de = de + 1.0 * std::cos(angle);
    dp = dp - 3.0 * std::sin(el - elp - d);
    angle = -el2 + f2 + om2;
    dp = dp - 3.0 * std::sin(angle);
    de = de + 1.0 * std::cos(angle);
    dp = dp + 11.0 * std::sin(el2 - f2);
    angle = -el2 + f2 + om;
    dp = dp + 46.0 * std::sin(angle);
    de = de - 24.0 * std::cos(angle);
    dp = dp + (2062.0 + 0.2 * centuries) * std::sin(om2);
    de = de + (-895.0 + 0.5 * centuries) * std::cos(om2);
    dp = dp + (-171996.0 - 174.2 * centuries) * std::sin(om);
    de = de + (92025.0 + 8.9 * centuries) * std::cos(om);
    psi = dp * UNITS_2_RADIANS;
    eps = de * UNITS_2_RADIANS;
    eps0 = ARCSECS_2_RADIANS * (84381.448 + (-46.8150 + (-0.00059 + 0.001813 * centuries) * centuries) * centuries);
}
}
