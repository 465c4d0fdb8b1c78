// Independent oracles for P27 (refraction model) and P28 (applying refraction, airmass).
#include "geo.h"
#include "slalib.h"
using namespace sla;
static const LD AS = PIl / 648000;
struct Site { double h, t, p, rh, wl, phi, tlr; };
static Site gen_site(Rng& r, bool radio) {
    Site s; s.h = r.coin(0.2) ? 0 : r.uni(0, 5000); s.t = r.uni(255, 300); s.p = 1013.25 * std::exp(-s.h / 8400) * r.uni(0.92, 1.05); s.rh = r.coin(0.2) ? 0 : r.uni(0, 1);
    s.wl = radio ? r.logu(101, 1e6) : r.uni(0.35, 2.2); s.phi = r.uni(-1.5, 1.5); s.tlr = r.uni(0.0055, 0.0075); return s;
}
#define RF(z) refro(z, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr, 1e-8)
// ---------------------------------------------------------------- P27
// Independent quadrature of the documented atmosphere: R = -integral of tan(psi)/n dn along the ray, by height with cosine-clustered steps.
static LD model_refraction(const Site& s, LD z) {
    const LD RE = 6378120, Rg = 8314.32L, Md = 28.9644L, Mw = 18.0152L, del = 18.36L, ht = 11000, hs = 80000;
    bool opt = s.wl <= 100; LD w2 = (LD) s.wl * s.wl, al = s.tlr, gb = 9.784L * (1 - 0.0026L * std::cos(2 * (LD) s.phi) - 0.00000028L * s.h);
    LD a = opt ? (287.6155L + (1.62887L + 0.01360L / w2) / w2) * 273.15e-6L / 1013.25L : 77.6890e-6L, gam = gb * Md / Rg / al, tc = (LD) s.t - 273.15L;
    LD ps = std::pow((LD) 10, (0.7859L + 0.03477L * tc) / (1 + 0.00412L * tc)) * (1 + (LD) s.p * (4.5e-6L + 6e-10L * tc * tc)), pw = s.rh * ps / (1 - (1 - (LD) s.rh) * ps / s.p);
    LD w = pw * (1 - Mw / Md) * gam / (del - gam);
    auto nm1t = [&](LD h) {           // refractivity in the troposphere
        LD T = (LD) s.t - al * (h - s.h), q = T / s.t, P = ((LD) s.p + w) * std::pow(q, gam) - w * std::pow(q, del), Pw = pw * std::pow(q, del);
        return (a * P - (opt ? 11.2684e-6L : 6.3938e-6L) * Pw + (opt ? 0 : 0.375463L * Pw / T)) / T; };
    LD Tt = (LD) s.t - al * (ht - s.h), nt = nm1t(ht);
    auto nm1s = [&](LD h) { return nt * std::exp(-gb * Md / Rg / Tt * (h - ht)); };
    LD k = (1 + nm1t(s.h)) * (RE + s.h) * std::sin(z), R = 0;
    auto seg = [&](LD h0, LD h1, auto nf, int N) {       // midpoint in x with h = h0 + (h1-h0) x^2 (clusters points near the observer)
        for (int j = 0; j < N; j++) { LD x0 = (LD) j / N, x1 = (LD) (j + 1) / N, xm = (x0 + x1) / 2, ha = h0 + (h1 - h0) * x0 * x0, hb = h0 + (h1 - h0) * x1 * x1, hm = h0 + (h1 - h0) * xm * xm; LD n = 1 + nf(hm), sp = k / (n * (RE + hm)); R -= sp / std::sqrt(1 - sp * sp) * (nf(hb) - nf(ha)) / n; } };
    seg(s.h, ht, nm1t, 400); seg(ht, hs, nm1s, 400); return R;
}
GROUP("P27", refraction_laws, 3000, 150000) {
    bool radio = idx % 3 == 2; Site s = gen_site(r, radio); double zmax = radio ? 75 * D2R : 85 * D2R, z = r.uni(0.001, zmax); in(z, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr);
    double g = RF(z); chk(g > 0, "refro", "positive-refraction", "%.17g", g);
    LD w = model_refraction(s, z); near_(g, w, w * (2e-5L + 3e-7L / std::pow(std::cos((LD) z), 4)) + 2e-9L, "refro", "independent-ray-integration");
    near_(RF(-z), -(LD) g, 1e-18L, "refro", "odd-in-zenith-distance"); near_(RF(z + TWOPI), g, 1e-11L, "refro", "whole-turns-ignored"); near_(RF(0.0), 0, 1e-15L, "refro", "zero-at-zenith");
    double z2 = z + r.logu(1e-4, 0.3); if (z2 < zmax) chk(RF(z2) > g, "refro", "increases-with-zenith-distance", "R(%.9g)=%.12g R(%.9g)=%.12g", z, g, z2, RF(z2));
    if (!radio) { double a = r.uni(85, 92.5) * D2R, b = a + r.uni(0.05, 0.4) * D2R; in(a, b, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr); chk(RF(b) > RF(a) && RF(a) > g * 0.999, "refro", "increases-toward-and-below-horizon", "%.12g %.12g", RF(a), RF(b)); double c = r.uni(93.0001, 179.9) * D2R; near_(RF(c), RF(93 * D2R), 2e-9L, "refro", "held-at-93-degree-value"); near_(RF(-c), -(LD) RF(c), 1e-18L, "refro", "odd-in-zenith-distance"); }
    // safe ranges: an out-of-range argument behaves exactly like the bound
    auto same = [&](LD x, LD y, const char* what) { near_(x, y, 1e-18L, "refro", what); };
    double e = 1e-8, zz = std::min(z, 1.2); in(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr);
    same(refro(zz, -r.uni(1000, 9000), s.t, s.p, s.rh, s.wl, s.phi, s.tlr, e), refro(zz, -1000, s.t, s.p, s.rh, s.wl, s.phi, s.tlr, e), "height-lower-bound");
    same(refro(zz, r.uni(80000, 200000), s.t, s.p, 0, s.wl, s.phi, 0.001, e), refro(zz, 80000, s.t, s.p, 0, s.wl, s.phi, 0.001, e), "height-upper-bound");
    same(refro(zz, 0, r.uni(-50, 100), s.p / 10, 0, s.wl, s.phi, 0.001, e), refro(zz, 0, 100, s.p / 10, 0, s.wl, s.phi, 0.001, e), "temperature-lower-bound");
    same(refro(zz, 0, r.uni(500, 2000), s.p, 0, s.wl, s.phi, s.tlr, e), refro(zz, 0, 500, s.p, 0, s.wl, s.phi, s.tlr, e), "temperature-upper-bound");
    same(refro(zz, s.h, s.t, -r.uni(0, 500), s.rh, s.wl, s.phi, s.tlr, e), 0, "no-pressure-no-refraction");
    same(refro(zz, 0, 490, r.uni(10000, 30000), 0, s.wl, s.phi, s.tlr, e), refro(zz, 0, 490, 10000, 0, s.wl, s.phi, s.tlr, e), "pressure-upper-bound");
    same(refro(zz, s.h, s.t, s.p, -r.uni(0, 3), s.wl, s.phi, s.tlr, e), refro(zz, s.h, s.t, s.p, 0, s.wl, s.phi, s.tlr, e), "humidity-lower-bound"); same(refro(zz, s.h, s.t, s.p, r.uni(1, 9), s.wl, s.phi, s.tlr, e), refro(zz, s.h, s.t, s.p, 1, s.wl, s.phi, s.tlr, e), "humidity-upper-bound");
    same(refro(zz, s.h, s.t, s.p, s.rh, r.uni(-1, 0.1), s.phi, s.tlr, e), refro(zz, s.h, s.t, s.p, s.rh, 0.1, s.phi, s.tlr, e), "wavelength-lower-bound");
    same(refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, -s.tlr, e), refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr, e), "lapse-rate-sign-ignored"); same(refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, r.uni(-0.001, 0.001), e), refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, 0.001, e), "lapse-rate-lower-bound"); same(refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, r.uni(0.01, 0.2), e), refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, 0.01, e), "lapse-rate-upper-bound");
    same(refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr, -e), refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr, e), "precision-sign-ignored"); near_(refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr, 1e-11), refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr, 1e-8), 1.5e-9L, "refro", "precision-request-honoured");
    same(refro(zz, s.h, s.t, s.p, s.rh, s.wl, -s.phi, s.tlr, e), refro(zz, s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr, e), "even-in-latitude");
    seen("refro", hd(g));
}
GROUP("P27", coefficients, 3000, 150000) {
    bool radio = idx % 3 == 2; Site s = gen_site(r, radio); in(s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr); double a, b; poison(a); poison(b); refco(s.h, s.t, s.p, s.rh, s.wl, s.phi, s.tlr, 1e-8, a, b);
    LD r1 = RF(std::atan(1.0)), r2 = RF(std::atan(4.0)); near_((LD) a + b, r1, 1e-17L, "refco", "exact-at-first-fitting-distance"); near_(4 * (LD) a + 64 * (LD) b, r2, 2e-15L, "refco", "exact-at-second-fitting-distance");
    chk(a > 0 && a < 6e-4 && b < 0 && b > -3e-6, "refco", "coefficient-signs", "%.12g %.12g", a, b);
    if (!radio) { for (double zd : {30.0, 45.0, 60.0, 75.0, 80.0}) { LD t = std::tan(zd * PIl / 180), dz = a * t + b * t * t * t; near_(dz, RF(zd * D2R), (zd <= 45 ? 0.006L : zd <= 60 ? 0.04L : 1.5L) * AS, "refco", "model-accuracy"); } }
    double qa, qb; poison(qa); poison(qb); refcoq(s.t, s.p, s.rh, s.wl, qa, qb); for (double zd : {15.0, 45.0, 75.0}) { LD t = std::tan(zd * PIl / 180); near_(qa * t + qb * t * t * t, RF(zd * D2R), (radio ? 1.2L : 0.25L) * AS, "refcoq", "agrees-with-integration-to-stated-accuracy"); }
    double xa, xb, ya, yb; auto sameq = [&](const char* what) { chk(xa == ya && xb == yb, "refcoq", what, "%.17g %.17g / %.17g %.17g", xa, xb, ya, yb); };
    refcoq(r.uni(-10, 100), s.p, 0, s.wl, xa, xb); refcoq(100, s.p, 0, s.wl, ya, yb); sameq("temperature-lower-bound"); refcoq(r.uni(500, 900), s.p, 0, s.wl, xa, xb); refcoq(500, s.p, 0, s.wl, ya, yb); sameq("temperature-upper-bound");
    refcoq(s.t, r.uni(10000, 20000), s.rh, s.wl, xa, xb); refcoq(s.t, 10000, s.rh, s.wl, ya, yb); sameq("pressure-upper-bound"); refcoq(s.t, -r.uni(0, 100), s.rh, s.wl, xa, xb); chk(xa == 0 && xb == 0, "refcoq", "no-pressure-no-refraction", "%.17g %.17g", xa, xb);
    refcoq(s.t, s.p, -r.uni(0, 2), s.wl, xa, xb); refcoq(s.t, s.p, 0, s.wl, ya, yb); sameq("humidity-lower-bound"); refcoq(s.t, s.p, r.uni(1, 3), s.wl, xa, xb); refcoq(s.t, s.p, 1, s.wl, ya, yb); sameq("humidity-upper-bound"); refcoq(s.t, s.p, s.rh, r.uni(-1, 0.1), xa, xb); refcoq(s.t, s.p, s.rh, 0.1, ya, yb); sameq("wavelength-lower-bound"); refcoq(s.t, s.p, s.rh, r.logu(100.001, 1e8), xa, xb); refcoq(s.t, s.p, s.rh, 101, ya, yb); sameq("radio-case-independent-of-wavelength");
    // published refractivities
    LD w2 = (LD) s.wl * s.wl, tc = (LD) s.t - 273.15L, ps = std::pow((LD) 10, (0.7859L + 0.03477L * tc) / (1 + 0.00412L * tc)) * (1 + (LD) s.p * (4.5e-6L + 6e-10L * tc * tc)), pw = s.rh * ps / (1 - (1 - (LD) s.rh) * ps / s.p);
    LD ga = radio ? (77.6890e-6L * s.p - (6.3938e-6L - 0.375463L / s.t) * pw) / s.t : ((77.53484e-6L + (4.39108e-7L + 3.666e-9L / w2) / w2) * s.p - 11.2684e-6L * pw) / s.t, be = 4.4474e-6L * s.t * (radio ? 1 - 0.0074L * pw : 1); near_(qa, ga * (1 - be), 1e-17L, "refcoq", "tan-coefficient"); near_(qb, -ga * (be - ga / 2), 1e-19L, "refcoq", "tan-cubed-coefficient");
    // dispersion
    if (!radio) {
        double wl2 = r.uni(0.3, 3), a2, b2, A2, B2; in(s.t, s.p, s.rh, s.wl, a, b, wl2); poison(a2); poison(b2); atmdsp(s.t, s.p, s.rh, s.wl, a, b, wl2, a2, b2); refco(s.h, s.t, s.p, s.rh, wl2, s.phi, s.tlr, 1e-8, A2, B2);
        LD psat = std::pow((LD) 10, -8.7115L + 0.03477L * s.t), w1 = 11.2684e-6L * s.rh * psat, u2 = (LD) wl2 * wl2, d1 = ((77.5317e-6L + (0.43909e-6L + 0.00367e-6L / w2) / w2) * s.p - w1) / s.t, d2 = ((77.5317e-6L + (0.43909e-6L + 0.00367e-6L / u2) / u2) * s.p - w1) / s.t;
        const LD cc = std::fabs(d1 * (d1 - d2) / (2 * (d1 - a))), t = std::tan(75 * PIl / 180);      // the second-order factor is singular where the refractivity equals the coefficient
        if (cc < 0.03L) near_(a2 * t + b2 * t * t * t, A2 * t + B2 * t * t * t, 0.4L * AS, "atmdsp", "agrees-with-direct-coefficients"); else covered("dispersion-near-singular");
        near_(a2, a * d2 / d1, 1e-17L, "atmdsp", "scales-with-refractivity"); near_(b2, b * d2 / d1 * (1 + d1 * (d1 - d2) / (2 * (d1 - a))), 1e-19L + 1e-14L * std::fabs((LD) b) * (1 + cc) * d1 / std::fabs(d1 - a), "atmdsp", "second-coefficient-law");
        atmdsp(s.t, s.p, s.rh, s.wl, a, b, s.wl, a2, b2); near_(a2, a, 1e-18L, "atmdsp", "equal-wavelengths-unchanged"); near_(b2, b, 1e-20L, "atmdsp", "equal-wavelengths-unchanged-b"); double rw = r.logu(100.01, 1e6); atmdsp(s.t, s.p, s.rh, rw, a, b, wl2, a2, b2); chk(a2 == a && b2 == b, "atmdsp", "radio-reference-unchanged", "wl %.9g", rw); atmdsp(s.t, s.p, s.rh, s.wl, a, b, rw, a2, b2); chk(a2 == a && b2 == b, "atmdsp", "radio-target-unchanged", "wl %.9g", rw); atmdsp(s.t, 0, s.rh * 0, s.wl, a, b, wl2, a2, b2); chk(a2 == a && b2 == b, "atmdsp", "no-refractivity-unchanged", "%.17g", a2);
        double x2, y2; atmdsp(s.t, s.p, s.rh, s.wl, a, b, r.uni(-1, 0.1), a2, b2); atmdsp(s.t, s.p, s.rh, s.wl, a, b, 0.1, x2, y2); chk(a2 == x2 && b2 == y2, "atmdsp", "wavelength-lower-bound", "%.17g %.17g", a2, x2); double rr = r.uni(1, 4); atmdsp(s.t, s.p, rr, s.wl, a, b, wl2, a2, b2); atmdsp(s.t, s.p, 1, s.wl, a, b, wl2, x2, y2); chk(a2 == x2 && b2 == y2, "atmdsp", "humidity-upper-bound", "%.17g %.17g", a2, x2);
    }
    seen("refco", hd(a)); seen("refcoq", hd(qa));
}
// ---------------------------------------------------------------- P28
GROUP("P28", apply_refraction, 60000, 4000000) {
    Site s = gen_site(r, idx % 4 == 3); double A, B; refcoq(s.t, s.p, s.rh, s.wl, A, B); if (r.coin(0.05)) A = B = 0; double z = r.coin(0.7) ? r.uni(0, 82.99) * D2R : r.logu(1e-9, 0.1); in(z, A, B);
    LD zo = refz(z, A, B), t = std::tan(zo); chk(zo <= z, "refz", "raises-source", "%.17Lg > %.17g", zo, z); LD tz = std::tan((LD) z); near_(zo + A * t + B * t * t * t, z, 4e-16L + 4e-16L * z + 1e-13L * std::pow(tz / 6, 8), "refz", "inverts-two-coefficient-model");
    double z2 = z + r.logu(1e-9, 1e-2); in(z, z2, A, B); if (z2 < 93 * D2R) chk(refz(z2, A, B) > refz(z, A, B) || z2 - z < 1e-14, "refz", "monotonic", "%.17g %.17g", refz(z, A, B), refz(z2, A, B));
    double h = r.uni(83, 93) * D2R, h2 = h + r.logu(1e-9, 2e-2); in(h, h2, A, B); if (h2 < 93 * D2R) chk(refz(h2, A, B) > refz(h, A, B), "refz", "monotonic-low-elevation", "%.17g %.17g", refz(h, A, B), refz(h2, A, B)); near_((LD) h - refz(h, A, B), 0, 0.065L, "refz", "low-elevation-refraction-bounded");
    chk((LD) h - refz(h, A, B) >= (LD) 82.9 * D2R - refz(82.9 * D2R, A, B) - 1e-12L, "refz", "refraction-grows-beyond-switch", "%.12Lg", (LD) h - refz(h, A, B));
    // published low-elevation formula, scaled to be continuous
    { LD z83 = 83 * PIl / 180, zz = refz((double) z83, A, B), E = 90 - (LD) h * 180 / PIl; auto Q = [](LD e) { return (0.55445L - 0.01133L * e + 0.00202L * e * e) / (1 + 0.28385L * e + 0.02390L * e * e); }; near_((LD) h - refz(h, A, B), (z83 - zz) * Q(E) / Q(7), 1e-12L, "refz", "low-elevation-formula"); }
    double e = 83 * D2R, d = r.logu(1e-13, 1e-6); in(e, d, A, B); near_((LD) refz(e + d, A, B) - refz(e - d, A, B), 2 * d, 0.1L * d + 2e-15L, "refz", "continuous-at-switch"); 
    double y1 = r.uni(93.0001, 180) * D2R, y2 = r.uni(93.0001, 180) * D2R; in(y1, y2, A, B); near_((LD) y1 - refz(y1, A, B), (LD) y2 - refz(y2, A, B), 1e-14L, "refz", "held-beyond-93-degrees"); near_((LD) y1 - refz(y1, A, B), 93 * PIl / 180 - refz(93 * D2R, A, B), 1e-14L, "refz", "held-at-93-degree-value"); chk(refz(0.0, A, B) == 0, "refz", "zenith-unchanged", "%.17g", refz(0.0, A, B));
    // vector form
    double az = r.uni(-PI, PI), zd = r.coin(0.8) ? r.uni(0, 80) * D2R : r.uni(80, 100) * D2R, sc = 1; double v[3] = {std::sin(zd) * std::cos(az) * sc, std::sin(zd) * std::sin(az) * sc, std::cos(zd) * sc}, w[3]; poison(w); in(v[0], v[1], v[2], A, B); refv(v, A, B, w);
    near_((LD) v[0] * w[1] - (LD) v[1] * w[0], 0, 4e-16L, "refv", "azimuth-kept"); chk(v[0] * w[0] >= 0 && v[1] * w[1] >= 0, "refv", "azimuth-sense-kept", "%.9g %.9g", w[0], w[1]); LD zr = std::atan2(std::hypot((LD) w[0], (LD) w[1]), (LD) w[2]); 
    if (zd < 82.9 * D2R) { LD tt = std::tan((LD) zd); near_(zr, refz(zd, A, B), AS * (1e-9L + 6e-5L * std::pow((LD) A / 2.9e-4L, 3) * tt * tt * tt * (1 + tt * tt)), "refv", "agrees-with-zenith-distance-form"); near_(len(v3(w)), 1, 1e-14L + 3e-13L * std::pow(tt, 4), "refv", "norm-preserved"); }
    else { chk(zr <= zd + 1e-15L && zd - zr < 0.02L, "refv", "low-elevation-raises-source", "%.12Lg", zd - zr); near_(len(v3(w)), 1, 6e-3L, "refv", "norm-roughly-preserved"); }
    double lo[3] = {v[0], v[1], -r.uni(0, 0.9)}, w2[3], lb[3] = {v[0], v[1], 0.05}, w3[3]; in(lo[0], lo[1], lo[2], A, B); refv(lo, A, B, w2); refv(lb, A, B, w3); near_((LD) w2[2] - lo[2], (LD) w3[2] - 0.05L, 1e-15L, "refv", "correction-held-at-low-elevation"); near_(w2[0], w3[0], 1e-15L, "refv", "correction-held-at-low-elevation-x");
    double zen[3] = {0, 0, 1}; refv(zen, A, B, w); chk(w[0] == 0 && w[1] == 0 && std::fabs(w[2] - 1) < 1e-15, "refv", "zenith-unchanged", "%.17g", w[2]);
    seen("refz", hd((double) zo)); seen("refv", hd(w2[2]));
}
GROUP("P28", airmass_laws, 60000, 4000000) {
    double z = r.coin(0.8) ? r.uni(0, 1.52) : r.logu(1e-12, 1e-2), g = airmas(z), z2 = z + r.logu(1e-7, 0.2); in(z, z2); LD s = 1 / std::cos((LD) z) - 1;
    near_(g, 1 + s * (0.9981833L - s * (0.002875L + 0.0008083L * s)), 1e-15L * (1 + s) * (1 + s), "airmas", "published-polynomial"); chk(airmas(-z) == g, "airmas", "sign-ignored", "%.17g", g); chk(airmas(0.0) == 1.0, "airmas", "one-at-zenith", "%.17g", airmas(0.0)); if (z2 <= 1.5) chk(airmas(z2) >= g, "airmas", "monotonic", "%.17g %.17g", g, airmas(z2)); chk(g >= 1 - 1e-15, "airmas", "at-least-one", "%.17g", g);
    double b = r.coin(0.3) ? jitter(r, 1.52) : r.logu(1.52, 1e6); if (b < 1.52) b = 1.52 + (1.52 - b); in(b); chk(airmas(b) == airmas(1.52) && airmas(-b) == airmas(1.52), "airmas", "held-constant-beyond-limit", "%.17g", airmas(b)); if (z < 1.0) near_(g, 1 + s, 0.008L * (1 + s), "airmas", "close-to-secant"); seen("airmas", hd(g));
}
