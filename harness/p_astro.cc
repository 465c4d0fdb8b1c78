// Independent astronomical oracles: P17 clock correction, P18 precession, P19 nutation, P20 frames, P21 E-terms and proper motion,
// P22 Earth, P23 Moon, P24 observers, P25 radial velocities. Laws, cross-model agreement and physical identities; no code shared with the library.
#include "geo.h"
#include "slalib.h"
#include "slaref.h"
extern "C" void vp_progress();
using namespace sla;
static const LD AS = PIl / 648000;
// ---------------------------------------------------------------- P17
GROUP("P17", clock_correction_laws, 3000, 150000) {
    double t = gen_mjd(r, 15020, 88069, &dict("rcc")), u = r.uni(0, 1), cl = gen_ang(r), a = r.uni(0, 6400), p = r.uni(-6400, 6400); if (std::fabs(cl) > 50) cl = r.uni(-7, 7);
    in(t, u, cl, a, p);
    LD g0 = rcc(t, u, cl, 0, 0), g = rcc(t, u, cl, a, p), ga = rcc(t, u, cl, a, 0), gp = rcc(t, u, cl, 0, p);
    chk(std::isfinite((double) g) && std::fabs(g) < 1.75e-3L, "rcc", "bounded-by-annual-amplitude", "%.6Lg s", g);
    LD d = (LD) t - 51544.5L, m = (357.53L + 0.98560028L * d) * PIl / 180; near_(g0, 0.001657L * std::sin(m) + 0.0000138L * std::sin(2 * m), 7e-5L, "rcc", "annual-term");
    near_(g - g0, (ga - g0) + (gp - g0), 1e-17L, "rcc", "observer-terms-additive");
    double k = r.uni(-2, 2); LD gk = rcc(t, u, cl, a * std::fabs(k), p * k); near_(gk - g0, std::fabs(k) * (ga - g0) + k * (gp - g0), 1e-17L, "rcc", "linear-in-distances");
    near_(rcc(t, u, cl, 0, p), rcc(t, r.uni(0, 1), r.uni(-3, 3), 0, p), 1e-18L, "rcc", "polar-distance-term-independent-of-longitude-and-ut");
    double du = r.uni(-0.4, 0.4); near_(rcc(t, u + du, cl + du * TWOPI, a, p), g, 2e-18L + 1e-20L, "rcc", "depends-on-local-solar-time-only");
    chk(std::fabs(ga - g0) <= 3.5e-10L * a + 1e-18L && std::fabs(gp - g0) <= 1.5e-10L * std::fabs(p) + 1e-18L, "rcc", "diurnal-terms-bounded", "%.6Lg %.6Lg", ga - g0, gp - g0);
    // diurnal term: dominant sin(local solar time)
    LD ts = (LD) u * 2 * PIl - cl; near_(ga - g0, 3.17679e-10L * a * std::sin(ts), 0.4e-10L * a + 1e-18L, "rcc", "dominant-diurnal-term");
    // half a day later the diurnal part reverses
    near_(rcc(t, u + 0.5, cl, a, 0) - g0, -(ga - g0), 3e-18L, "rcc", "half-turn-reverses-diurnal-part");
    // smooth in time
    double h = 0.01; near_((LD) rcc(t + h, u, cl, a, p) - g, 0, 6.0e-5L * h, "rcc", "rate-bounded"); 
    LD sd = (LD) rcc(t + h, u, cl, a, p) - 2 * g + rcc(t - h, u, cl, a, p); near_(sd, 0, 2.0e-6L * h * h * 1.3L, "rcc", "second-difference-bounded");
    seen("rcc", hd((double) g));
}
// ---------------------------------------------------------------- P18
static void is_rot(const double (*m)[3], const char* fn) { LD q[9]; m9(m, q); chk(orthoerr(q) < 4e-15L, fn, "orthonormal", "error %.3Lg", orthoerr(q)); near_(det3(q), 1, 8e-15L, fn, "determinant-plus-one"); }
GROUP("P18", precession_laws, 80000, 6000000) {
    typedef void (*PF)(double, double, double (*)[3]);
    static const struct { PF f; const char* n; double lo, hi; LD rz, rt, e0, comp; } M[] = {
        {[](double a, double b, double (*m)[3]) { prec(a, b, m); }, "prec", 1600, 2400, 2306.2181L, 2004.3109L, 2000, 0.12L},
        {[](double a, double b, double (*m)[3]) { precl(a, b, m); }, "precl", 1000, 3000, 2306.09097L, 2004.20207L, 2000, 0.012L},
        {[](double a, double b, double (*m)[3]) { prebn(a, b, m); }, "prebn", 1750, 2100, 2303.5548L, 2005.1125L, 1850, 0.06L}};
    const auto& P = M[idx % 3]; double a = gen_real(r, P.lo, P.hi, &dict(P.n)), b = gen_real(r, P.lo, P.hi, &dict(P.n)), c = r.uni(P.lo, P.hi);
    in(a, b, c); double ab[3][3], ba[3][3], bc[3][3], ac[3][3], aa[3][3]; P.f(a, b, ab); P.f(b, a, ba); P.f(b, c, bc); P.f(a, c, ac); P.f(a, a, aa);
    is_rot(ab, P.n); LD q[9], w[9], t[9], id[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
    m9(aa, q); chk(mdiff(q, id) == 0, P.n, "identity-for-equal-epochs", "differs by %.3Lg", mdiff(q, id));
    LD span = (std::max({a, b, c}) - std::min({a, b, c})) / 100, far = std::max({std::fabs(a - (double) P.e0), std::fabs(b - (double) P.e0), std::fabs(c - (double) P.e0)}) / 100;
    LD tol = P.comp * AS * (0.02L + std::pow((span + far) / 4, 3)) ;
    m9(ab, q); m9(ba, w); mmul(w, q, t); near_(mdiff(t, id), 0, tol, P.n, "inverted-by-swapping-epochs");
    m9(bc, w); mmul(w, q, t); m9(ac, w); near_(mdiff(t, w), 0, tol, P.n, "composes-through-intermediate-epoch");
    // rates near the basic epoch: zeta + z and theta
    double e = (double) P.e0 + r.uni(-0.5, 0.5), h = r.uni(0.05, 1.0) * r.sign(); double mm[3][3]; in(e, h); P.f(e, e + h, mm); LD hc = ((LD) (e + h) - e) / 100;
    near_(mm[2][0], std::sin(P.rt * AS * hc), 3e-2L * AS * std::fabs(hc) , P.n, "adopted-rate-in-declination"); near_(mm[1][0], 2 * P.rz * AS * hc, 1e-1L * AS * std::fabs(hc), P.n, "adopted-rate-in-right-ascension");
    // models agree to their stated accuracies
    if (idx % 3 == 0) { double o[3][3]; in(a, b); precl(a, b, o); LD z[9]; m9(o, z); if (std::min(a, b) > 1640 && std::max(a, b) < 2360) near_(mdiff(q, z), 0, 4.0L * AS, "prec", "agrees-with-long-span-model"); prebn(a, b, o); m9(o, z); if (std::min(a, b) > 1800 && std::max(a, b) < 2100) near_(mdiff(q, z), 0, 3.0L * AS * span + 0.02L * AS, "prebn", "agrees-with-iau1976-to-precession-constant"); }
    // applying to positions
    Spherical<double> s{gen_ang(r), gen_lat(r)}; if (std::fabs(s.s_a) > 100) s.s_a = 1; Spherical<double> p = s; in(s.s_a, s.s_b, a, b); bool fk5 = idx % 2; preces(fk5 ? CAT_FK5 : CAT_FK4, a, b, p);
    double R[3][3]; if (fk5) prec(a, b, R); else prebn(a, b, R); m9(R, q); near_(angsep(sph(p.s_a, p.s_b), mul(q, sph(s.s_a, s.s_b))), 0, 4e-15L, "preces", fk5 ? "uses-fk5-model" : "uses-fk4-model");
    chk(p.s_a >= 0 && p.s_a <= TWOPI && std::fabs(p.s_b) <= PI / 2, "preces", "range", "%.17g %.17g", p.s_a, p.s_b);
    p = s; static const Catalogue badc[] = {CAT_NONE, CAT_FC, CAT_NFK, CAT_FK3, CAT_FK6}; Catalogue bc_ = badc[r.irange(0, 4)]; in(bc_); preces(bc_, a, b, p); chk(p.s_a == -99.0 && p.s_b == -99.0, "preces", "unsupported-system-error-values", "%.17g %.17g", p.s_a, p.s_b);
    seen(P.n, hd(ab[0][1]));
}
// ---------------------------------------------------------------- P19
GROUP("P19", nutation_laws, 8000, 400000) {
    double d = gen_mjd(r, 15020, 88069, &dict("nutc")); in(d); double p, e, e0, p8, e8, e08; poison(p); poison(e); poison(e0); poison(p8); poison(e8); poison(e08); nutc(d, p, e, e0); nutc80(d, p8, e8, e08);
    LD t = ((LD) d - 51544.5L) / 36525; 
    near_(e08, AS * (84381.448L + (-46.8150L + (-0.00059L + 0.001813L * t) * t) * t), 1e-14L, "nutc80", "iau1980-mean-obliquity"); near_(e0, e08, 0.2L * AS, "nutc", "mean-obliquity-agrees-with-iau1980");
    near_(p, p8, (0.2L + 0.7L * std::fabs(t)) * AS, "nutc", "longitude-agrees-with-iau1980"); near_(e, e8, (0.1L + 0.25L * std::fabs(t)) * AS, "nutc", "obliquity-agrees-with-iau1980");
    // leading terms of the published series
    LD om = (125.04452L - 1934.136261L * t) * PIl / 180, L = (280.4665L + 36000.7698L * t) * PIl / 180, Lm = (218.3165L + 481267.8813L * t) * PIl / 180, M = (357.52772L + 35999.05034L * t) * PIl / 180, Mm = (134.96298L + 477198.867398L * t) * PIl / 180, F = (93.27191L + 483202.017538L * t) * PIl / 180; (void) F;
    LD lp = AS * (-(17.1996L + 0.01742L * t) * std::sin(om) - 1.3187L * std::sin(2 * L) - 0.2274L * std::sin(2 * Lm) + 0.2062L * std::sin(2 * om) + 0.1426L * std::sin(M) + 0.0712L * std::sin(Mm) - 0.0517L * std::sin(2 * L + M) - 0.0386L * std::sin(2 * Lm - om) - 0.0301L * std::sin(2 * Lm + Mm));
    LD le = AS * (9.2025L * std::cos(om) + 0.5736L * std::cos(2 * L) + 0.0977L * std::cos(2 * Lm) - 0.0895L * std::cos(2 * om) + 0.0224L * std::cos(2 * L + M) + 0.0200L * std::cos(2 * Lm - om) + 0.0129L * std::cos(2 * Lm + Mm));
    near_(p8, lp, 0.25L * AS, "nutc80", "leading-longitude-terms"); near_(e8, le, 0.14L * AS, "nutc80", "leading-obliquity-terms");
    // matrices
    double N[3][3]; poison(N); nut(d, N); LD q[9], w[9], z[9]; axrot(0, e0, w); axrot(2, -(LD) p, z); mmul(z, w, w); axrot(0, -((LD) e0 + e), z); mmul(z, w, w); m9(N, q); near_(mdiff(q, w), 0, 2e-15L, "nut", "matrix-implied-by-angles"); is_rot(N, "nut");
    double E[3][3]; poison(E); ecmat(d, E); axrot(0, e08, w); m9(E, q); near_(mdiff(q, w), 0, 2e-15L, "ecmat", "rotation-by-mean-obliquity");
    double je = r.uni(1850, 2150); double PN[3][3], P[3][3]; in(d, je); prenut(je, d, PN); prec(je, 2000.0 + (d - 51544.5) / 365.25, P); m9(P, w); m9(N, z); mmul(z, w, w); m9(PN, q); near_(mdiff(q, w), 0, 4e-15L, "prenut", "nutation-times-precession"); is_rot(PN, "prenut");
    LD om2 = AS * (450160.280L + (-5 * 1296000.0L - 482890.539L + (7.455L + 0.008L * t) * t) * t); near_(eqeqx(d), (LD) p * std::cos((LD) e0) + AS * (0.00264L * std::sin(om2) + 0.000063L * std::sin(2 * om2)), 2e-18L, "eqeqx", "nutation-in-right-ascension");
    // continuity
    double h = 1e-3, pn, en, e0n; nutc(d + h, pn, en, e0n); near_((LD) pn - p, 0, 1.5L * AS * h, "nutc", "rate-bounded"); near_((LD) en - e, 0, 1.0L * AS * h, "nutc", "rate-bounded-obliquity");
    nutc80(d + h, pn, en, e0n); near_((LD) pn - p8, 0, 1.5L * AS * h, "nutc80", "rate-bounded");
    seen("nutc", hd(p)); seen("nutc80", hd(p8));
}
// ---------------------------------------------------------------- P20
GROUP("P20", frames_inverse, 80000, 6000000) {
    Spherical<double> s{r.coin(0.8) ? r.uni(-7, 7) : gen_lon(r), gen_lat(r)}, u{r.uni(0, 6), gen_lat(r)}; double d = gen_mjd(r, -20000, 130000); in(s.s_a, s.s_b, u.s_a, u.s_b, d);
    V3 ls = sph(s.s_a, s.s_b), lu = sph(u.s_a, u.s_b); LD sep0 = angsep(ls, lu); Spherical<double> a, b, c; 
    auto range = [&](const char* fn, const Spherical<double>& p) { chk(p.s_a >= 0 && p.s_a <= TWOPI && std::fabs(p.s_b) <= PI / 2, fn, "range", "%.17g %.17g", p.s_a, p.s_b); };
    // published matrices have twelve decimals, hence non-orthogonality of a few 1e-12
    auto pair = [&](const char* f, const char* g, auto F, auto G, LD tol, LD septol) {
        poison(a); poison(b); poison(c); F(s, a); G(a, b); F(u, c); range(f, a); range(g, b); near_(angsep(sph(b.s_a, b.s_b), ls), 0, tol, g, "inverts-forward-transform"); near_(angsep(sph(a.s_a, a.s_b), sph(c.s_a, c.s_b)), sep0, septol, f, "preserves-separation");
        G(s, a); F(a, b); near_(angsep(sph(b.s_a, b.s_b), ls), 0, tol, f, "inverts-backward-transform"); seen(f, hd(a.s_a)); };
    pair("eqgal", "galeq", [](auto& x, auto& y) { eqgal(x, y); }, [](auto& x, auto& y) { galeq(x, y); }, 2e-10L, 2e-10L);
    pair("galsup", "supgal", [](auto& x, auto& y) { galsup(x, y); }, [](auto& x, auto& y) { supgal(x, y); }, 2e-10L, 2e-10L);
    pair("eg50", "ge50", [](auto& x, auto& y) { eg50(x, y); }, [](auto& x, auto& y) { ge50(x, y); }, 2e-10L, 8e-6L);
    pair("eqecl", "ecleq", [&](auto& x, auto& y) { eqecl(x, d, y); }, [&](auto& x, auto& y) { ecleq(x, d, y); }, 1e-14L, 2e-14L);
    // ecliptic latitude: angle from the pole of the ecliptic of date (precession then obliquity rotation)
    LD t = ((LD) d - 51544.5L) / 36525, eps = AS * (84381.448L + (-46.8150L + (-0.00059L + 0.001813L * t) * t) * t); double P[3][3]; prec(2000.0, 2000.0 + (d - 51544.5) / 365.25, P); LD m[9], w[9]; m9(P, m); axrot(0, eps, w); mmul(w, m, w); poison(a); eqecl(s, d, a); near_(angsep(sph(a.s_a, a.s_b), mul(w, ls)), 0, 6e-15L, "eqecl", "precession-then-obliquity");
}
GROUP("P20", frames_defining_points, 200, 4000) {
    struct Pt { const char* fn; double a, b, A, B; double tol; };
    static const Pt pts[] = {
        {"eqgal", 192.8594812, 27.1282512, 0, 90, 1.5e-4}, {"eqgal", 266.4050996, -28.9361740, 0, 0, 1.5e-4}, {"galeq", 0, 90, 192.8594812, 27.1282512, 1.5e-4}, {"galeq", 0, 0, 266.4050996, -28.9361740, 1.5e-4},
        {"galsup", 47.37, 6.32, 0, 90, 1e-9}, {"galsup", 137.37, 0, 0, 0, 1e-9}, {"supgal", 0, 90, 47.37, 6.32, 1e-9}, {"supgal", 0, 0, 137.37, 0, 1e-9},
        {"ge50", 0, 90, 192.25, 27.4, 2e-4}, {"ge50", 33, 0, 282.25, 0, 2e-4}, {"ge50", 123, 27.4, 0, 90, 2e-4}, {"eg50", 192.25, 27.4, 0, 90, 2e-4}, {"eg50", 282.25, 0, 33, 0, 2e-4}, {"eg50", 0, 90, 123, 27.4, 2e-4}};
    for (auto& p : pts) {
        Spherical<double> s{p.a * D2R, p.b * D2R}, o; in(p.a, p.b); std::string f = p.fn;
        if (f == "eqgal") eqgal(s, o); else if (f == "galeq") galeq(s, o); else if (f == "galsup") galsup(s, o); else if (f == "supgal") supgal(s, o); else if (f == "ge50") ge50(s, o); else eg50(s, o);
        near_(angsep(sph(o.s_a, o.s_b), sph(p.A * D2R, p.B * D2R)), 0, p.tol * D2R * 4, p.fn, "defining-point");
    }
    // ecliptic: the equinox of J2000 and the solstice
    double d = 51544.5; LD eps = 84381.448L * AS; Spherical<double> o; eqecl({0, 0}, d, o); near_(angsep(sph(o.s_a, o.s_b), V3{1, 0, 0}), 0, 1e-13L, "eqecl", "equinox"); eqecl({PI / 2, (double) eps}, d, o); near_(angsep(sph(o.s_a, o.s_b), V3{0, 1, 0}), 0, 1e-13L, "eqecl", "solstice"); ecleq({0, PI / 2}, d, o); near_(angsep(sph(o.s_a, o.s_b), sph(1.5L * PIl, PIl / 2 - eps)), 0, 1e-13L, "ecleq", "ecliptic-pole");
    double ang_ = r.uni(0, 6); in(ang_); seen("frames", hd(ang_));
}
// ---------------------------------------------------------------- P21
GROUP("P21", eterms, 80000, 6000000) {
    double be = gen_real(r, 1750, 2150, &dict("etrms")); Spherical<double> s{r.coin(0.8) ? r.uni(-7, 7) : gen_lon(r), gen_lat(r)}, a, b; in(s.s_a, s.s_b, be); double e[3]; poison(e); etrms(be, e);
    LD jc = ((LD) be - 1950) * 1.00002135903e-2L, ec = 0.01673011L - (0.00004193L + 0.000000126L * jc) * jc, k = ec * 20.49552L * AS, e0 = (84404.836L - (46.8495L + (0.00319L + 0.00181L * jc) * jc) * jc) * AS, pl = (1015489.951L + (6190.67L + (1.65L + 0.012L * jc) * jc) * jc) * AS;
    near_(e[0], k * std::sin(pl), 1e-19L, "etrms", "x"); near_(e[1], -k * std::cos(pl) * std::cos(e0), 1e-19L, "etrms", "y"); near_(e[2], -k * std::cos(pl) * std::sin(e0), 1e-19L, "etrms", "z"); near_(len(v3(e)), k, 1e-19L, "etrms", "magnitude-is-eccentricity-times-aberration-constant");
    if (std::fabs(be - 1950) < 1e-9) { near_(e[0], -1.62557e-6L, 6e-9L, "etrms", "b1950-published-x"); near_(e[1], -0.31919e-6L, 6e-9L, "etrms", "b1950-published-y"); near_(e[2], -0.13843e-6L, 6e-9L, "etrms", "b1950-published-z"); }
    V3 ls = sph(s.s_a, s.s_b), E = v3(e); poison(a); addet(s, be, a); near_(angsep(sph(a.s_a, a.s_b), ls + E), 0, 4e-15L, "addet", "displaces-by-e-terms-vector"); chk(a.s_a >= 0 && a.s_a <= TWOPI && std::fabs(a.s_b) <= PI / 2, "addet", "range", "%.17g %.17g", a.s_a, a.s_b);
    poison(b); subet(s, be, b); V3 w = (1 + dot(ls, E)) * ls - E; near_(angsep(sph(b.s_a, b.s_b), w), 0, 4e-15L, "subet", "removes-e-terms-vector"); chk(b.s_a >= 0 && b.s_a <= TWOPI && std::fabs(b.s_b) <= PI / 2, "subet", "range", "%.17g %.17g", b.s_a, b.s_b);
    subet(a, be, b); near_(angsep(sph(b.s_a, b.s_b), ls), 0, 1.2e-11L, "subet", "undoes-addet"); subet(s, be, a); addet(a, be, b); near_(angsep(sph(b.s_a, b.s_b), ls), 0, 1.2e-11L, "addet", "undoes-subet"); seen("addet", hd(a.s_a));
}
GROUP("P21", proper_motion, 80000, 6000000) {
    Spherical<double> s{r.uni(-7, 7), gen_lat(r)}, m{r.sign() * r.logu(1e-9, 1e-4), r.sign() * r.logu(1e-9, 1e-4)}, o, b; double px = r.coin(0.3) ? 0 : r.uni(0, 1), rv = r.coin(0.3) ? 0 : r.uni(-300, 300), e0 = r.uni(1800, 2200), e1 = r.coin(0.1) ? e0 : r.uni(1800, 2200); if (r.coin(0.3)) { rv *= 5; e0 = r.uni(-2000, 6000); if (r.coin(0.8)) e1 = r.uni(-2000, 6000); else e1 = e0; } if (r.coin(0.15)) m = {0, 0};
    in(s.s_a, s.s_b, m.s_a, m.s_b, px, rv, e0, e1); LD t = (LD) e1 - e0, sa = std::sin((LD) s.s_a), ca = std::cos((LD) s.s_a), sd = std::sin((LD) s.s_b), cd = std::cos((LD) s.s_b); V3 u = sph(s.s_a, s.s_b); LD wv = 365.25L * 86400 / 149597870 * AS * rv * px;
    V3 mot{-(LD) m.s_a * sa * cd - (LD) m.s_b * ca * sd, (LD) m.s_a * ca * cd - (LD) m.s_b * sa * sd, (LD) m.s_b * cd}; V3 w = u + t * (mot + wv * u); poison(o); pm(s, m, px, rv, e0, e1, o);
    LD lw = len(w); if (lw < 1e-2L) return; near_(angsep(sph(o.s_a, o.s_b), w), 0, (1e-14L * (1 + std::fabs(t * wv)) + 3e-10L * std::fabs(t * wv) * len(t * mot) / std::fmin(lw, 1.0L)) / lw, "pm", "linear-space-motion"); chk(o.s_a >= 0 && o.s_a <= TWOPI && std::fabs(o.s_b) <= PI / 2, "pm", "range", "%.17g %.17g", o.s_a, o.s_b);
    pm(s, m, px, rv, e1, e1, b); near_(angsep(sph(b.s_a, b.s_b), u), 0, 4e-15L, "pm", "zero-interval-is-identity"); pm(s, {0, 0}, px, rv, e0, e1, b); if (1 + t * wv > 0.1L) near_(angsep(sph(b.s_a, b.s_b), u), 0, 4e-15L, "pm", "radial-motion-keeps-direction");
    pm(s, m, px, rv, e0 + 7, e1 + 7, b); near_(angsep(sph(b.s_a, b.s_b), sph(o.s_a, o.s_b)), 0, (1e-14L * (1 + std::fabs(t * wv)) + 2e-12L * (len(mot) + std::fabs(wv)) * 4) / lw, "pm", "depends-on-interval-only");
    Spherical<double> sm{m.s_a * 1e-2, m.s_b * 1e-2}; if (std::fabs(s.s_b) < 1.4) { pm(s, sm, 0, 0, e0, e1, o); pm(o, sm, 0, 0, e1, e0, b); LD q = std::fabs(t) * (std::fabs((LD) sm.s_a) + std::fabs((LD) sm.s_b)); near_(angsep(sph(b.s_a, b.s_b), u), 0, 1e-14L + 8 * q * q / std::cos((LD) s.s_b) / std::cos((LD) s.s_b), "pm", "reversing-interval-undoes-transverse-motion"); }
    seen("pm", hd(o.s_a));
}
// ---------------------------------------------------------------- P22
static void ydf_of(double mjd, int& y, int& d, float& f) {      // year, day of the Julian-aligned calendar valid 1900 March - 2100 February
    double n = std::floor(mjd); f = (float) (mjd - n); long k = (long) n - 15079;    // days since 1900 March 1 (aligned calendar: 4-year cycle)
    y = 1900; d = (int) k + 61;           // 1900 counts as leap in this calendar: March 1 is day 61
    for (;;) { int L = y % 4 == 0 ? 366 : 365; if (d <= L) break; d -= L; y++; }
}
GROUP("P22", earth_laws, 2500, 120000) {
    double t = gen_mjd(r, 15100, 88000, &dict("epv")); in(t); double hp[3], hv[3], bp[3], bv[3], a[3], b[3], c[3], d[3]; poison(hp); poison(hv); poison(bp); poison(bv); epv(t, hp, hv, bp, bv);
    LD R = len(v3(hp)), V = len(v3(hv)); chk(R > 0.9825L && R < 1.0178L, "epv", "heliocentric-distance-physical", "%.6Lg", R); chk(V > 0.0168L && V < 0.01751L, "epv", "speed-physical", "%.6Lg", V);
    near_(len(v3(hp) - v3(bp)), 0, 0.02L, "epv", "sun-near-barycentre"); near_(len(v3(hv) - v3(bv)), 0, 2e-5L, "epv", "sun-velocity-small");
    double h = 0.02, p1[3], p2[3], q1[3], q2[3], x1[3], x2[3], x3[3], x4[3]; epv(t + h, p1, x1, q1, x2); epv(t - h, p2, x3, q2, x4); LD hh = (LD) (t + h) - (t - h);
    near_(len((1 / hh) * (v3(p1) - v3(p2)) - v3(hv)), 0, 2e-9L, "epv", "heliocentric-velocity-is-derivative"); near_(len((1 / hh) * (v3(q1) - v3(q2)) - v3(bv)), 0, 2e-9L, "epv", "barycentric-velocity-is-derivative");
    // fast routine: J2000 equinox (BCRS orientation differs by milliarcseconds)
    poison(a); poison(b); poison(c); poison(d); evp(t, 2000.0, a, b, c, d); LD km = 1 / 149597870.0L;
    near_(len(v3(b) - v3(bp)), 0, 2.0e-4L, "evp", "barycentric-position-stated-accuracy"); near_(len(v3(d) - v3(hp)), 0, 6000 * km, "evp", "heliocentric-position-stated-accuracy");
    near_(len(86400 * v3(a) - v3(bv)), 0, 1.5e-3L * km * 86400, "evp", "barycentric-velocity-stated-accuracy"); near_(len(86400 * v3(c) - v3(hv)), 0, 1.5e-3L * km * 86400, "evp", "heliocentric-velocity-stated-accuracy");
    // requested equinox honoured
    double eq = r.coin(0.3) ? 1950.0 : r.uni(1900, 2100), e1[3], e2[3], e3[3], e4[3]; in(t, eq); evp(t, eq, e1, e2, e3, e4); double P[3][3]; prec(2000.0, eq, P); LD m[9]; m9(P, m); LD pt = 2e-4L * AS + 1e-9L + 0.05L * AS * std::fabs((t - 51544.5) / 36525) + 0.02L * AS * std::fabs(eq - 2000) / 100;
    near_(len(mul(m, v3(b)) - v3(e2)), 0, pt, "evp", "equinox-honoured-position"); near_(len(mul(m, v3(a)) - v3(e1)), 0, pt * 2e-7L + 1e-17L, "evp", "equinox-honoured-velocity"); near_(len(mul(m, v3(d)) - v3(e4)), 0, pt, "evp", "equinox-honoured-heliocentric"); near_(len(mul(m, v3(c)) - v3(e3)), 0, pt * 2e-7L + 1e-17L, "evp", "equinox-honoured-heliocentric-velocity");
    double z1[3], z2[3], z3[3], z4[3], w1[3], w2[3], w3[3], w4[3]; evp(t, 0.0, z1, z2, z3, z4); evp(t, r.uni(-3000, 0), w1, w2, w3, w4); for (int q = 0; q < 3; q++) chk(z1[q] == w1[q] && z2[q] == w2[q] && z3[q] == w3[q] && z4[q] == w4[q], "evp", "non-positive-equinox-means-of-date", "component %d", q);
    prec(2000.0, 2000.0 + (t - 51544.5) / 365.25, P); m9(P, m); near_(len(mul(m, v3(b)) - v3(z2)), 0, pt + 0.06L * AS, "evp", "of-date-vectors"); near_(len(mul(m, v3(a)) - v3(z1)), 0, 2e-7L * (pt + 0.06L * AS), "evp", "of-date-velocity");
    evp(t + 0.05, 2000.0, w1, w2, w3, w4); evp(t - 0.05, 2000.0, z1, z2, z3, z4); hh = ((LD) (t + 0.05) - (t - 0.05)) * 86400; near_(len((1 / hh) * (v3(w2) - v3(z2)) - v3(a)), 0, 6e-12L, "evp", "velocity-is-derivative"); near_(len((1 / hh) * (v3(w4) - v3(z4)) - v3(c)), 0, 6e-12L, "evp", "heliocentric-velocity-is-derivative");
    seen("epv", hd(hp[0])); seen("evp", hd(b[0]));
}
GROUP("P22", earth_single_precision, 8000, 400000) {
    double t = r.uni(15100, 88000); if (r.coin(0.3)) t = std::floor(t); int y, dn; float f; ydf_of(t, y, dn, f); if (r.coin(0.03)) f = 1.0f; double tt = std::floor(t) + (double) f; in(y, dn, f); VectorPV<float> pv; poison(pv); earth(y, dn, f, pv);
    double hp[3], hv[3], bp[3], bv[3]; evp(tt, 0.0, bv, bp, hv, hp); V3 p{pv.get_x(), pv.get_y(), pv.get_z()}, v{pv.get_dx(), pv.get_dy(), pv.get_dz()};
    LD far = 1 + std::max((LD) 0, (std::fabs((LD) tt - 51544.5L) / 18262.5L - 1)); near_(len(p - v3(hp)), 0, 25e-5L * far, "earth", "position-stated-accuracy"); near_(len(v - v3(hv)), 0, 80e-10L * far, "earth", "velocity-stated-accuracy");
    // velocity and light time corrections
    Spherical<float> s{(float) r.uni(-7, 7), (float) gen_lat(r)}; in(s.s_a, s.s_b, y, dn, f); float vel, lt; poison(vel); poison(lt); ecor(s, y, dn, f, vel, lt); V3 u = sph(s.s_a, s.s_b);
    near_(vel, -149597870.66L * dot(v, u), 2e-5L, "ecor", "velocity-is-projection"); near_(lt, 499.0047837L * dot(p, u), 3e-4L, "ecor", "light-time-is-projection"); near_(vel, -149597870.66L * dot(v3(hv), u), 0.014L * far, "ecor", "velocity-stated-accuracy"); near_(lt, 499.0047837L * dot(v3(hp), u), 0.13L * far, "ecor", "light-time-stated-accuracy");
    Spherical<float> anti{(float) (s.s_a + (s.s_a > 0 ? -PI : PI)), -s.s_b}; float v2, l2; ecor(anti, y, dn, f, v2, l2); near_(v2, -vel, 5e-5L, "ecor", "odd-under-reversal"); near_(l2, -lt, 1e-3L, "ecor", "light-time-odd-under-reversal");
    seen("earth", hd((double) pv.get_x())); seen("ecor", hd((double) vel)); covered(y % 4 == 0 ? "leap-year" : "common-year");
}
GROUP("P22", earth_single_precision_series, 20000, 800000) {      // between 1900 and 2100 the published low-precision formulae are evaluated to single precision
    int y = (int) r.irange(1901, 2099), d = (int) r.irange(1, 365); float f = (float) (r.coin(0.1) ? r.irange(0, 1) : r.u()); in(y, d, f); VectorPV<float> a; poison(a); slaref::VectorPV<LD> b; earth(y, d, f, a); slaref::earth(y, d, (LD) f, b);
    V3 p{a.get_x(), a.get_y(), a.get_z()}, v{a.get_dx(), a.get_dy(), a.get_dz()}, P{b.get_x(), b.get_y(), b.get_z()}, V{b.get_dx(), b.get_dy(), b.get_dz()};
    near_(angsep(p, P), 0, 1.2e-5L, "earth", "direction-to-single-precision"); near_(len(p) / len(P), 1, 1.5e-6L, "earth", "distance-to-single-precision"); near_(len(v - V) / 2e-7L, 0, 1.2e-5L, "earth", "velocity-to-single-precision"); LD ce = std::cos(0.4091L), se = std::sin(0.4091L); near_(p.z * ce - p.y * se, P.z * ce - P.y * se, 5e-7L, "earth", "ecliptic-plane"); seen("earth", hd((double) a.get_x()));
}
// ---------------------------------------------------------------- P23
GROUP("P23", moon_laws, 6000, 300000) {
    double t = gen_mjd(r, 15100, 88000, &dict("dmoon")); in(t); VectorPV<double> c, n, m2; poison(c); dmoon(t, c); V3 p{c.get_x(), c.get_y(), c.get_z()}, v{c.get_dx(), c.get_dy(), c.get_dz()}; LD km = 1 / 149597870.0L;
    LD D = len(p) / km; chk(D > 356300 && D < 406800, "dmoon", "distance-within-perigee-apogee", "%.6Lg km", D); LD sp = len(v) / km; chk(sp > 0.94L && sp < 1.12L, "dmoon", "speed-physical", "%.6Lg km/s", sp);
    double h = 0.004; dmoon(t + h, n); dmoon(t - h, m2); LD hh = ((LD) (t + h) - (t - h)) * 86400; V3 dv = (1 / hh) * V3{(LD) n.get_x() - m2.get_x(), (LD) n.get_y() - m2.get_y(), (LD) n.get_z() - m2.get_z()}; near_(len(dv - v), 0, 1.5e-14L, "dmoon", "velocity-is-derivative");
    // mean elements: longitude within the largest inequalities of the mean longitude, latitude within 5.35 degrees
    LD T = ((LD) t - 51544.5L) / 36525, Lm = (218.3164477L + 481267.88123421L * T) * PIl / 180, D_ = (297.8501921L + 445267.1114034L * T) * PIl / 180, M = (357.5291092L + 35999.0502909L * T) * PIl / 180, Mm = (134.9633964L + 477198.8675055L * T) * PIl / 180, F = (93.2720950L + 483202.0175233L * T) * PIl / 180, eps = AS * (84381.448L - 46.8150L * T);
    V3 e{p.x, p.y * std::cos(eps) + p.z * std::sin(eps), -p.y * std::sin(eps) + p.z * std::cos(eps)}; LD lon = std::atan2(e.y, e.x), lat_ = std::asin(e.z / len(e));
    LD wl = Lm + PIl / 180 * (6.288774L * std::sin(Mm) + 1.274027L * std::sin(2 * D_ - Mm) + 0.658314L * std::sin(2 * D_) + 0.213618L * std::sin(2 * Mm) - 0.185116L * std::sin(M) - 0.114332L * std::sin(2 * F) + 0.058793L * std::sin(2 * D_ - 2 * Mm) + 0.057066L * std::sin(2 * D_ - M - Mm) + 0.053322L * std::sin(2 * D_ + Mm) + 0.045758L * std::sin(2 * D_ - M) - 0.040923L * std::sin(M - Mm) - 0.034720L * std::sin(D_) - 0.030383L * std::sin(M + Mm)), wb = PIl / 180 * (5.128122L * std::sin(F) + 0.280602L * std::sin(Mm + F) + 0.277693L * std::sin(Mm - F) + 0.173237L * std::sin(2 * D_ - F) + 0.055413L * std::sin(2 * D_ - Mm + F) + 0.046271L * std::sin(2 * D_ - Mm - F));
    neara(lon, wl, 0.2L * PIl / 180, "dmoon", "longitude-from-main-problem"); near_(lat_, wb, 0.2L * PIl / 180, "dmoon", "latitude-from-main-problem");
    LD wd = 385000.56L - 20905.355L * std::cos(Mm) - 3699.111L * std::cos(2 * D_ - Mm) - 2955.968L * std::cos(2 * D_) - 569.925L * std::cos(2 * Mm); near_(D, wd, 2500, "dmoon", "distance-from-main-problem");
    // single-precision routine at the same instant
    int y, dn; float f; double ts = r.coin(0.3) ? std::floor(t) : t; ydf_of(ts, y, dn, f); double tt = std::floor(ts) + (double) f; in(tt, y, dn, f); VectorPV<float> s; poison(s); moon(y, dn, f, s); dmoon(tt, c); V3 P{c.get_x(), c.get_y(), c.get_z()}, V{c.get_dx(), c.get_dy(), c.get_dz()}, q{s.get_x(), s.get_y(), s.get_z()}, w{s.get_dx(), s.get_dy(), s.get_dz()};
    near_(angsep(P, q), 0, 150 * AS, "moon", "direction-agrees-with-full-model"); near_((len(P) - len(q)) / km, 0, 2300, "moon", "distance-agrees-with-full-model"); near_(len(V - w) / km, 0, 0.02L, "moon", "velocity-agrees-with-full-model");
    seen("dmoon", hd(c.get_x())); seen("moon", hd((double) s.get_x())); covered(y % 4 == 0 ? "leap-year" : "common-year");
}
GROUP("P23", moon_single_precision_series, 20000, 800000) {
    int y = (int) r.irange(1901, 2099), d = (int) r.irange(1, 365); float f = (float) (r.coin(0.1) ? r.irange(0, 1) : r.u()); in(y, d, f); VectorPV<float> a; poison(a); slaref::VectorPV<LD> b; moon(y, d, f, a); slaref::moon(y, d, (LD) f, b);
    LD ce = std::cos(0.4091L), se = std::sin(0.4091L); V3 p{a.get_x(), a.get_y(), a.get_z()}, v{a.get_dx(), a.get_dy(), a.get_dz()}, P{b.get_x(), b.get_y(), b.get_z()}, V{b.get_dx(), b.get_dy(), b.get_dz()}; LD e = (p.z * ce - p.y * se) / len(p), E = (P.z * ce - P.y * se) / len(P);
    near_(angsep(p, P), 0, 3e-4L, "moon", "direction-to-single-precision"); near_(len(p) / len(P), 1, 1.5e-5L, "moon", "distance-to-single-precision"); near_(e, E, 3.5e-5L, "moon", "latitude-to-single-precision"); near_(len(v - V) / 6.8e-9L, 0, 3e-4L, "moon", "velocity-to-single-precision"); seen("moon", hd((double) a.get_x()));
}
// The rounding noise of the longitude is larger than the smallest terms of the series, but a wrong term is coherent: correlate the
// residuals of thousands of dates with every combination of the fundamental arguments.
GROUP("P23", moon_residual_spectrum, 16, 320) {
    const int N = 3000, K = 5 * 9 * 9 * 5; static thread_local std::vector<double> S(K * 6), C(K * 6); std::fill(S.begin(), S.end(), 0); std::fill(C.begin(), C.end(), 0); in(idx);
    for (int n = 0; n < N; n++) {
        int y = (int) r.irange(1901, 2099), d = (int) r.irange(1, 365); float f = (float) r.u(); VectorPV<float> a; slaref::VectorPV<LD> b; moon(y, d, f, a); slaref::moon(y, d, (LD) f, b); LD ce = std::cos(0.4091L), se = std::sin(0.4091L); double res[6]; V3 q[4] = {{a.get_x(), a.get_y(), a.get_z()}, {b.get_x(), b.get_y(), b.get_z()}, {a.get_dx(), a.get_dy(), a.get_dz()}, {b.get_dx(), b.get_dy(), b.get_dz()}}; for (auto& w : q) w = {w.x, w.y * ce + w.z * se, w.z * ce - w.y * se};
        res[0] = (double) std::remainder(std::atan2(q[0].y, q[0].x) - std::atan2(q[1].y, q[1].x), 2 * PIl); res[1] = (double) (std::asin(q[0].z / len(q[0])) - std::asin(q[1].z / len(q[1]))); res[2] = (double) (len(q[0]) / len(q[1]) - 1); V3 u = unit(q[1]), w{-u.y, u.x, 0}; w = unit(w); V3 dv = q[2] - q[3]; res[3] = (double) (dot(dv, w) / 6.8e-9L); res[4] = (double) (dv.z / 6.8e-9L); res[5] = (double) (dot(dv, u) / 6.8e-9L);
        int iy4 = ((y % 4) + 4) % 4; double yf = (4 * (d - 1 / (iy4 + 1)) - iy4 - 2 + 4.0 * f) / 1461.0, T = (y - 1900 + yf) / 100, k = PI / 180; double M = k * (358.475833 + 35999.0498 * T), Mm = k * (296.104608 + 477198.8491 * T), D_ = k * (350.737486 + 445267.1142 * T), F = k * (11.250889 + 483202.0251 * T); int z = 0;
        double sm[5], cm[5], sp[9], cp[9], sd[9], cd[9], sf[5], cf[5]; for (int q = 0; q < 5; q++) { sm[q] = std::sin((q - 2) * M); cm[q] = std::cos((q - 2) * M); sf[q] = std::sin((q - 2) * F); cf[q] = std::cos((q - 2) * F); } for (int q = 0; q < 9; q++) { sp[q] = std::sin((q - 4) * Mm); cp[q] = std::cos((q - 4) * Mm); sd[q] = std::sin((q - 4) * D_); cd[q] = std::cos((q - 4) * D_); }
        for (int A = 0; A < 5; A++) for (int B = 0; B < 9; B++) { double s1 = sm[A] * cp[B] + cm[A] * sp[B], c1 = cm[A] * cp[B] - sm[A] * sp[B]; for (int Cc = 0; Cc < 9; Cc++) { double s2 = s1 * cd[Cc] + c1 * sd[Cc], c2 = c1 * cd[Cc] - s1 * sd[Cc]; for (int Dd = 0; Dd < 5; Dd++, z++) { double s3 = s2 * cf[Dd] + c2 * sf[Dd], c3 = c2 * cf[Dd] - s2 * sf[Dd]; for (int e = 0; e < 6; e++) { S[z * 6 + e] += res[e] * s3; C[z * 6 + e] += res[e] * c3; } } } }
        if (n % 100 == 0) vp_progress();
    }
    static const char* what[6] = {"longitude-terms", "latitude-terms", "distance-terms", "transverse-velocity-terms", "polar-velocity-terms", "radial-velocity-terms"}; const LD tol[6] = {6e-6L, 2e-6L, 1e-6L, 6e-6L, 6e-6L, 6e-6L};
    for (int e = 0; e < 6; e++) { double m = 0; for (int z = 0; z < K; z++) m = std::max(m, 2.0 / N * std::hypot(S[z * 6 + e], C[z * 6 + e])); near_(m, 0, tol[e], "moon", what[e]); } seen("moon", (uint64_t) idx);
}
// ---------------------------------------------------------------- P24
GROUP("P24", observers, 100000, 8000000) {
    double phi = gen_lat(r), h = r.coin(0.2) ? 0 : r.uni(-500, 20000), lst = r.coin(0.8) ? r.uni(-7, 7) : gen_lon(r); in(phi, h, lst); const LD A = 6378140.0L, f = 1 / 298.257L, B = A * (1 - f), AU = 1.49597870e11L; double rr, z; poison(rr); poison(z); geoc(phi, h, rr, z);
    // foot of the normal lies on the spheroid and the normal has the geodetic latitude
    LD x0 = rr * AU - (LD) h * std::cos((LD) phi), z0 = z * AU - (LD) h * std::sin((LD) phi); near_(x0 * x0 / (A * A) + z0 * z0 / (B * B), 1, 4e-15L, "geoc", "foot-on-spheroid"); near_((x0 / (A * A)) * std::sin((LD) phi) - (z0 / (B * B)) * std::cos((LD) phi), 0, 4e-15L / A, "geoc", "normal-has-geodetic-latitude"); chk((std::fabs(phi) < 1e-9 || z0 * std::sin((LD) phi) > 0) && x0 > -1e-6L, "geoc", "hemisphere", "%.6Lg %.6Lg", x0, z0);
    VectorPV<double> v; poison(v); pvobs(phi, h, lst, v); LD om = 7.292115855306589e-5L; 
    near_(v.get_x(), rr * std::cos((LD) lst), 4e-20L, "pvobs", "x"); near_(v.get_y(), rr * std::sin((LD) lst), 4e-20L, "pvobs", "y"); near_(v.get_z(), z, 4e-20L, "pvobs", "z"); near_(v.get_dx(), -om * v.get_y(), 4e-24L, "pvobs", "rigid-rotation-x"); near_(v.get_dy(), om * v.get_x(), 4e-24L, "pvobs", "rigid-rotation-y"); chk(v.get_dz() == 0, "pvobs", "no-polar-velocity", "%.17g", v.get_dz());
    // polar motion
    double el = r.uni(-7, 7), ph = gen_lat(r), xp = r.coin(0.1) ? 0 : r.uni(-1, 1) * r.pick({1e-6, 1e-5, 1e-2}), yp = r.coin(0.1) ? 0 : r.uni(-1, 1) * r.pick({1e-6, 1e-5, 1e-2}), tl, tp, da; poison(tl); poison(tp); poison(da); in(el, ph, xp, yp); polmo(el, ph, xp, yp, tl, tp, da);
    V3 s = sph(el, ph); LD m1[9], m2_[9], m[9]; axrot(0, yp, m1); axrot(1, xp, m2_); mmul(m2_, m1, m); V3 w = mul(m, s), pole = mul(m, V3{0, 0, 1}); near_(angsep(sph(tl, tp), w), 0, 4e-15L, "polmo", "rotates-station-by-pole-coordinates");
    LD cl = std::sqrt(w.x * w.x + w.y * w.y), cm = std::cos((LD) ph); if (cl > 1e-2L && cm > 1e-2L) { V3 ea{-w.y / cl, w.x / cl, 0}, no = cross(w, ea); near_(std::remainder(da + std::atan2(dot(pole, ea), dot(pole, no)), 2 * PIl), 0, 1e-13L / cl, "polmo", "azimuth-of-terrestrial-pole"); LD X = std::cos((LD) el) * cm, Y = std::sin((LD) el) * cm; if (std::fabs(xp) < 2e-5 && std::fabs(yp) < 2e-5) near_(da, std::atan2(-X * yp - Y * xp, X * X + Y * Y), 4e-9L / cm / cm / cm, "polmo", "documented-approximation"); }
    polmo(el, ph, 0, 0, tl, tp, da); if (std::fabs(ph) < 1.57) { neara(tl, el, 4e-15L / std::cos((LD) ph), "polmo", "zero-polar-motion-longitude"); near_(tp, ph, 2e-15L / std::cos((LD) ph), "polmo", "zero-polar-motion-latitude"); near_(da, 0, 2e-15L / std::cos((LD) ph), "polmo", "zero-polar-motion-azimuth"); }
    seen("geoc", hd(rr)); seen("polmo", hd(tl));
}
// ---------------------------------------------------------------- P25
GROUP("P25", axis_components, 20000, 200000) {       // along the axes of the frame the components of the solar motion appear one by one
    Spherical<float> s{(float) (r.irange(-4, 4) * PI / 2), (float) (r.irange(-1, 1) * PI / 2)}; in(s.s_a, s.s_b); slaref::Spherical<LD> t{(LD) s.s_a, (LD) s.s_b};
    near_(rvlsrd(s), slaref::rvlsrd(t), 4e-6L, "rvlsrd", "axis-component"); near_(rvlsrk(s), slaref::rvlsrk(t), 5e-6L, "rvlsrk", "axis-component"); near_(rvgalc(s), slaref::rvgalc(t), 5e-5L, "rvgalc", "axis-component"); near_(rvlg(s), slaref::rvlg(t), 7e-5L, "rvlg", "axis-component"); seen("rvlsrd", hd((double) rvlsrd(s)));
}
GROUP("P25", radial_velocities, 100000, 8000000) {
    Spherical<float> s{(float) r.uni(-7, 7), (float) gen_lat(r)}; float phi = (float) gen_lat(r), st = (float) r.uni(-7, 7); in(s.s_a, s.s_b, phi, st); V3 u = sph(s.s_a, s.s_b);
    struct Mo { const char* n; float (*f)(const Spherical<float>&); LD speed, ra, dec, tol; };
    static const LD hr = PIl / 12, dg = PIl / 180;      // apices as documented (J2000); kinematic apex is 18h +30d (1900) precessed
    static const Mo M[] = {{"rvgalc", rvgalc, 220, (21 + 12 / 60.0L + 1.1L / 3600) * hr, (48 + 19 / 60.0L + 47 / 3600.0L) * dg, 1e-3L}, {"rvlg", rvlg, 300, (21 + 12 / 60.0L + 1.1L / 3600) * hr, (48 + 19 / 60.0L + 47 / 3600.0L) * dg, 1.5e-3L},
        {"rvlsrd", rvlsrd, std::sqrt(274.0L), (17 + 49 / 60.0L + 58.7L / 3600) * hr, (28 + 7 / 60.0L + 4 / 3600.0L) * dg, 1.5e-4L}, {"rvlsrk", rvlsrk, 20, (18 + 3 / 60.0L + 50.2L / 3600) * hr, (30 + 0 / 60.0L + 16.8L / 3600.0L) * dg, 3e-4L}};
    for (auto& m : M) { V3 ap = sph(m.ra, m.dec); float g = m.f(s); near_(g, -m.speed * dot(ap, u), m.tol + m.speed * 1e-6L, m.n, "projection-of-adopted-motion"); chk(std::fabs((LD) g) <= m.speed * (1 + 2e-5L), m.n, "bounded-by-adopted-speed", "%.9g", (double) g);
        Spherical<float> anti{(float) (s.s_a + (s.s_a > 0 ? -PI : PI)), -s.s_b}; near_(m.f(anti), -(LD) g, m.speed * 2e-6L, m.n, "odd-under-reversal"); Spherical<float> apex{(float) m.ra, (float) m.dec}; near_(m.f(apex), -m.speed, m.speed * 1e-5L, m.n, "extremal-toward-apex"); seen(m.n, hd((double) g)); }
    float g = rverot(phi, s, st); near_(g, 0.4655L * std::cos((LD) phi) * std::sin((LD) st - s.s_a) * std::cos((LD) s.s_b), 1.5e-6L, "rverot", "diurnal-law"); chk(std::fabs(g) <= 0.46551f, "rverot", "bounded", "%.9g", (double) g); near_(rverot(-phi, s, st), g, 1e-7L, "rverot", "even-in-latitude"); near_(rverot(phi, s, s.s_a), 0, 1e-7L, "rverot", "zero-on-meridian"); Spherical<float> up{(float) (s.s_a + (s.s_a > 0 ? -PI : PI)), -s.s_b}; near_(rverot(phi, up, st), -(LD) g, 1.5e-6L, "rverot", "odd-under-reversal");
    seen("rverot", hd((double) g));
}
