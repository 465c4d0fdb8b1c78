// Independent geometric oracles: P08 angles, P09 algebra, P10 rotations, P11 spherical/Cartesian, P12 separations, P13 horizon, P14 tangent plane.
#include "geo.h"
#include "slalib.h"
using namespace sla;
// ---------------------------------------------------------------- P08
template <class T> static void norm_case(Rng& r, const char* fp, const char* fs, T (*pos)(T), T (*sgn)(T), LD eps) {
    double a = gen_ang(r);
    if (r.coin(0.15)) a = r.irange(-40, 40) * PI;
    if (r.coin(0.10)) a = r.sign() * r.logu(1e-300, 1e-5);
    if (r.coin(0.08)) a = r.sign() * r.logu(1e3, 1e12);
    if (r.coin(0.03)) a = r.sign() * r.logu(1e12, sizeof(T) == 8 ? 1e300 : 1e37);
    if (r.coin(0.15)) { a = r.pick({0.0, -0.0, PI, -PI, TWOPI, -TWOPI, 2 * TWOPI, 3 * PI, -3 * PI, PI / 2}); }
    T x = (T) a;
    if (r.coin(0.2)) x = std::nextafter(x, r.coin() ? (T) 1e30 : (T) -1e30);
    in(x);
    const LD tp = (LD) (T) 6.283185307179586476925286766559L, hp = (LD) (T) 3.1415926535897932384626433832795L;
    T p = pos(x), s = sgn(x);
    // the library reduces modulo the machine representation of two pi, so the tolerance grows with the number of turns removed
    LD tol = eps * 12 * (1 + std::fabs((LD) x));
    chk(p >= 0 && (LD) p <= tp, fp, "in-range", "%.17g", (double) p);
    chk(std::fabs((LD) s) <= hp, fs, "in-range", "%.17g", (double) s);
    if (std::fabs((LD) x) < 1e14L) { neara(p, x, tol, fp, "equivalent-angle"); neara(s, x, tol, fs, "equivalent-angle"); }
    if (x >= 0 && (LD) x < tp) chk(p == x, fp, "already-in-range-unchanged", "%.17g -> %.17g", (double) x, (double) p);
    if (std::fabs((LD) x) < hp) chk(s == x, fs, "already-in-range-unchanged", "%.17g -> %.17g", (double) x, (double) s);
    T p2 = pos(p), s2 = sgn(s);
    if ((LD) p < tp) chk(p2 == p, fp, "idempotent", "%.17g -> %.17g", (double) p, (double) p2);
    if (std::fabs((LD) s) < hp) chk(s2 == s, fs, "idempotent", "%.17g -> %.17g", (double) s, (double) s2);
    // one turn more gives the same answer
    T y = x + (T) (tp * (LD) r.irange(-3, 3));
    if (std::fabs((LD) x) < 1e6L) { neara(pos(y), pos(x), eps * 64 * (1 + std::fabs((LD) x)), fp, "period-two-pi"); neara(sgn(y), sgn(x), eps * 64 * (1 + std::fabs((LD) x)), fs, "period-two-pi"); }
    covered(std::fabs((LD) x) > 1e6L ? "huge" : std::fabs((LD) x) < 1e-8L ? "tiny" : "ordinary");
    seen(fp, hd((double) p)); seen(fs, hd((double) s));
}
GROUP("P08", normalise, 500000, 50000000) {
    norm_case<double>(r, "dranrm", "drange", dranrm, drange, EPSD);
    norm_case<float>(r, "ranorm", "range", ranorm, range, EPSF);
}
// ---------------------------------------------------------------- P09
template <class T> struct Alg { T (*dv)(const T*, const T*); void (*xv)(const T*, const T*, T*); T (*vn)(const T*, T*); void (*mv)(const T (*)[3], const T*, T*); void (*imv)(const T (*)[3], const T*, T*); void (*mm)(const T (*)[3], const T (*)[3], T (*)[3]); const char* n[6]; LD eps; };
template <class T> static void algebra_case(Rng& r, const Alg<T>& A) {
    double va[3], vb[3]; gen_vec(r, va); gen_vec(r, vb); int k = (int) r.irange(0, 9); bool small = false;
    if (k == 0) for (int q = 0; q < 3; q++) vb[q] = -2 * va[q]; if (k == 1) for (int q = 0; q < 3; q++) va[q] = 0;
    if (k == 2) { double s = sizeof(T) == 8 ? r.logu(1e-100, 1e100) : r.logu(1e-12, 1e12); small = true; for (int q = 0; q < 3; q++) { va[q] *= s; } }
    T a[3], b[3], c[3], u[3]; for (int q = 0; q < 3; q++) { a[q] = (T) va[q]; b[q] = (T) vb[q]; }
    in(a[0], a[1], a[2], b[0], b[1], b[2]);
    V3 la = v3(a), lb = v3(b); LD na = len(la), nb = len(lb);
    near_(A.dv(a, b), dot(la, lb), 8 * A.eps * na * nb + 1e-300L, A.n[0], "dot-definition");
    poison(c); A.xv(a, b, c); V3 lc = cross(la, lb);
    LD t = 8 * A.eps * na * nb + 1e-300L; near_(c[0], lc.x, t, A.n[1], "cross-x"); near_(c[1], lc.y, t, A.n[1], "cross-y"); near_(c[2], lc.z, t, A.n[1], "cross-z");
    near_(dot(v3(c), la), 0, 16 * A.eps * na * na * nb + 1e-280L, A.n[1], "perpendicular-to-operand");
    poison(u); T m = A.vn(a, u);
    if (na == 0) { chk(m == 0 && u[0] == 0 && u[1] == 0 && u[2] == 0, A.n[2], "zero-vector", "%.17g %.17g %.17g mod %.17g", (double) u[0], (double) u[1], (double) u[2], (double) m); covered("zero-vector"); }
    else {
        near_(m, na, 8 * A.eps * na, A.n[2], "modulus"); near_(len(v3(u)), 1, 8 * A.eps, A.n[2], "unit-length");
        near_(u[0], la.x / na, 8 * A.eps, A.n[2], "direction-x"); near_(u[1], la.y / na, 8 * A.eps, A.n[2], "direction-y"); near_(u[2], la.z / na, 8 * A.eps, A.n[2], "direction-z");
    }
    if (small) return;
    // matrices
    double rm[9]; bool isrot = r.coin(0.5); if (isrot) gen_rot(r, rm); else for (int q = 0; q < 9; q++) rm[q] = r.gauss() * (r.coin(0.2) ? r.logu(1e-3, 1e3) : 1);
    T M[3][3], N[3][3], R[3][3]; LD lm[9], ln[9], fm = 0, fn = 0; for (int q = 0; q < 9; q++) { M[q / 3][q % 3] = (T) rm[q]; lm[q] = M[q / 3][q % 3]; fm += lm[q] * lm[q]; N[q / 3][q % 3] = (T) r.gauss(); ln[q] = N[q / 3][q % 3]; fn += ln[q] * ln[q]; }
    fm = std::sqrt(fm); fn = std::sqrt(fn);
    for (int q = 0; q < 9; q++) in_add((double) lm[q]);
    poison(c); A.mv(M, a, c); V3 w = mul(lm, la); t = 8 * A.eps * fm * na + 1e-300L;
    near_(c[0], w.x, t, A.n[3], "row-1"); near_(c[1], w.y, t, A.n[3], "row-2"); near_(c[2], w.z, t, A.n[3], "row-3");
    if (isrot) { T bck[3]; A.imv(M, c, bck); LD tt = 40 * A.eps * na + 1e-300L; near_(bck[0], a[0], tt, A.n[4], "undoes-rotation-x"); near_(bck[1], a[1], tt, A.n[4], "undoes-rotation-y"); near_(bck[2], a[2], tt, A.n[4], "undoes-rotation-z"); covered("rotation"); }
    poison(c); A.imv(M, a, c); w = mulT(lm, la); near_(c[0], w.x, t, A.n[4], "column-1"); near_(c[1], w.y, t, A.n[4], "column-2"); near_(c[2], w.z, t, A.n[4], "column-3");
    poison(R); A.mm(M, N, R); LD p[9]; mmul(lm, ln, p); for (int q = 0; q < 9; q++) near_(R[q / 3][q % 3], p[q], 8 * A.eps * fm * fn, A.n[5], "product-element");
    seen(A.n[5], hd((double) R[1][2])); seen(A.n[0], hd((double) c[0]));
}
GROUP("P09", algebra, 150000, 10000000) {
    static const Alg<double> D{[](const double* a, const double* b) { return dvdv(a, b); }, [](const double* a, const double* b, double* c) { dvxv(a, b, c); }, [](const double* a, double* u) { return dvn(a, u); },
        [](const double (*m)[3], const double* a, double* c) { dmxv(m, a, c); }, [](const double (*m)[3], const double* a, double* c) { dimxv(m, a, c); }, [](const double (*a)[3], const double (*b)[3], double (*c)[3]) { dmxm(a, b, c); },
        {"dvdv", "dvxv", "dvn", "dmxv", "dimxv", "dmxm"}, EPSD};
    static const Alg<float> F{[](const float* a, const float* b) { return vdv(a, b); }, [](const float* a, const float* b, float* c) { vxv(a, b, c); }, [](const float* a, float* u) { return vn(a, u); },
        [](const float (*m)[3], const float* a, float* c) { mxv(m, a, c); }, [](const float (*m)[3], const float* a, float* c) { imxv(m, a, c); }, [](const float (*a)[3], const float (*b)[3], float (*c)[3]) { mxm(a, b, c); },
        {"vdv", "vxv", "vn", "mxv", "imxv", "mxm"}, EPSF};
    algebra_case(r, D); algebra_case(r, F);
}
// ---------------------------------------------------------------- P10
template <class T> static void rot_case(Rng& r, void (*av2)(const T*, T (*)[3]), void (*m2)(const T (*)[3], T*), void (*eul)(const char*, T, T, T, T (*)[3]), const char* nav, const char* nm2, const char* neu, LD eps) {
    double u[3]; gen_unit(r, u); double s; int k = (int) r.irange(0, 9);
    if (k == 0) s = 0; else if (k == 1) s = r.logu(1e-12, 1e-3); else if (k == 2) s = PI - r.logu(1e-5, 1e-1); else if (k == 3) s = r.uni(PI, 20); else if (k == 4) s = jitter(r, r.irange(0, 8) * PI / 4); else s = r.uni(0, PI);
    T a[3]; for (int q = 0; q < 3; q++) a[q] = (T) (s * u[q]);
    in(a[0], a[1], a[2]);
    V3 la = v3(a); LD phi = len(la); V3 ax = phi > 0 ? (1 / phi) * la : V3{0, 0, 0};
    T M[3][3]; poison(M); av2(a, M); LD m[9]; m9(M, m);
    chk(orthoerr(m) < 40 * eps, nav, "orthonormal", "error %.3Lg", orthoerr(m)); near_(det3(m), 1, 60 * eps, nav, "determinant-plus-one");
    LD ang_tol = eps * (40 + 4 * phi);
    if (phi == 0) { LD e[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; chk(mdiff(m, e) == 0, nav, "zero-vector-is-identity", "not identity"); covered("null-rotation"); }
    else {
        // Rodrigues: frame rotation by phi about ax, i.e. vector rotation by -phi
        V3 t = sph(r.uni(0, 6), r.uni(-1.5, 1.5)); LD c = std::cos(phi), sn = std::sin(-phi); V3 w = c * t + sn * cross(ax, t) + ((1 - c) * dot(ax, t)) * ax; V3 g = mul(m, t);
        near_(len(g - w), 0, ang_tol, nav, "rotates-about-axis-by-angle"); near_(len(mul(m, ax) - ax), 0, 40 * eps, nav, "axis-invariant");
    }
    T b[3]; poison(b); m2(M, b);
    if (phi == 0) chk(b[0] == 0 && b[1] == 0 && b[2] == 0, nm2, "null-rotation-gives-null-vector", "%.17g %.17g %.17g", (double) b[0], (double) b[1], (double) b[2]);
    else if (phi < PIl - 1e-3L * (eps > 1e-10L ? 30 : 1)) {
        LD tol = 60 * eps * (1 + 4 / std::max(1e-30L, PIl - phi)); near_(len(v3(b) - la), 0, tol, nm2, "inverts-construction"); seen(nm2, hd((double) b[0]));
    }
    // Euler
    static const char* const GOOD = "xyzXYZ123"; static const char* const BAD = "wA40 -?q9WuVv/"; char o[6]; int n = (int) (r.coin(0.7) ? 3 : r.irange(0, 4)), q; for (q = 0; q < n; q++) o[q] = r.coin(0.92) ? GOOD[r.irange(0, 8)] : BAD[r.irange(0, 13)]; o[q] = 0;
    double e[3]; for (int z = 0; z < 3; z++) e[z] = r.coin(0.1) ? 0 : gen_ang(r);
    T E[3][3]; poison(E); in(e[0], e[1], e[2]); note("order '%s'", o);
    eul(o, (T) e[0], (T) e[1], (T) e[2], E);
    LD w[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; LD mag = 1;
    for (int z = 0; z < 3 && o[z]; z++) { const char* p = std::strchr(GOOD, o[z]); if (!p) { covered("euler-terminated"); break; } LD q9[9]; axrot((int) ((p - GOOD) % 3), (LD) (T) e[z], q9); mmul(q9, w, w); mag += std::fabs((LD) e[z]) * 0 + 1; }
    m9(E, m); near_(mdiff(m, w), 0, 20 * eps * mag, neu, "product-of-axis-rotations"); chk(orthoerr(m) < 40 * eps, neu, "orthonormal", "error %.3Lg", orthoerr(m)); near_(det3(m), 1, 60 * eps, neu, "determinant-plus-one");
    if (!o[0]) { LD id[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; chk(mdiff(m, id) == 0, neu, "empty-order-is-identity", "not identity"); covered("empty-order"); }
    seen(nav, hd((double) M[0][1])); seen(neu, hd((double) E[0][1]));
}
GROUP("P10", rotations, 200000, 15000000) {
    rot_case<double>(r, [](const double* a, double (*m)[3]) { dav2m(a, m); }, [](const double (*m)[3], double* a) { dm2av(m, a); }, [](const char* o, double a, double b, double c, double (*m)[3]) { deuler(o, a, b, c, m); }, "dav2m", "dm2av", "deuler", EPSD);
    rot_case<float>(r, [](const float* a, float (*m)[3]) { av2m(a, m); }, [](const float (*m)[3], float* a) { m2av(m, a); }, [](const char* o, float a, float b, float c, float (*m)[3]) { euler(o, a, b, c, m); }, "av2m", "m2av", "euler", EPSF);
}
// ---------------------------------------------------------------- P11
template <class T> struct SC { void (*s2c)(const Spherical<T>&, T*); void (*c2s)(const T*, Spherical<T>&); void (*s6)(const SphericalPV<T>&, VectorPV<T>&); void (*c6)(const VectorPV<T>&, SphericalPV<T>&); const char* n[4]; LD eps; };
template <class T> static void sc_case(Rng& r, const SC<T>& S) {
    Spherical<T> s{(T) gen_ang(r), (T) gen_lat(r)}; const LD eps = S.eps;
    in(s.s_a, s.s_b); T v[3]; poison(v); S.s2c(s, v); V3 w = sph(s.s_a, s.s_b);
    near_(v[0], w.x, 8 * eps, S.n[0], "x"); near_(v[1], w.y, 8 * eps, S.n[0], "y"); near_(v[2], w.z, 8 * eps, S.n[0], "z");
    T k = (T) (r.coin(0.3) ? 1.0 : r.coin(0.2) ? (sizeof(T) == 8 ? r.logu(1e-120, 1e120) : r.logu(1e-9, 1e17)) : r.logu(1e-9, 1e9)); T q[3] = {v[0] * k, v[1] * k, v[2] * k};
    if (r.coin(0.05)) { q[0] = q[1] = 0; if (r.coin(0.3)) q[2] = 0; }
    in(q[0], q[1], q[2]); Spherical<T> b; poison(b); S.c2s(q, b);
    if (q[0] == 0 && q[1] == 0) { chk(b.s_a == 0, S.n[1], "longitude-zero-on-axis", "%.17g", (double) b.s_a); if (q[2] == 0) chk(b.s_b == 0, S.n[1], "null-vector-all-zero", "%.17g", (double) b.s_b); else near_(b.s_b, q[2] > 0 ? PIl / 2 : -PIl / 2, 4 * eps, S.n[1], "pole-latitude"); covered("on-axis"); }
    else { near_(angsep(sph(b.s_a, b.s_b), v3(q)), 0, 12 * eps, S.n[1], "direction-recovered"); chk(std::fabs((LD) b.s_b) <= PIl / 2 + eps && std::fabs((LD) b.s_a) <= PIl + 2 * eps, S.n[1], "range", "%.17g %.17g", (double) b.s_a, (double) b.s_b); }
    seen(S.n[1], hd((double) b.s_a));
    // six-vectors
    SphericalPV<T> p; T in6[6] = {(T) gen_ang(r), (T) gen_lat(r), (T) r.logu(1e-3, 1e3), (T) (r.sign() * r.logu(1e-6, 10)), (T) (r.sign() * r.logu(1e-6, 10)), (T) (r.sign() * r.logu(1e-6, 10))};
    if (sizeof(T) == 8 && r.coin(0.1)) { in6[2] = (T) r.logu(1e-40, 1e40); in6[5] *= in6[2]; covered(in6[2] > 1 ? "very-distant" : "very-near"); }
    if (r.coin(0.1)) in6[3] = 0; if (r.coin(0.1)) in6[4] = 0; if (r.coin(0.1)) in6[5] = 0; if (r.coin(0.02)) in6[2] = 0;
    p.set_longitude(in6[0]); p.set_latitude(in6[1]); p.set_dist(in6[2]); p.set_dlong(in6[3]); p.set_dlat(in6[4]); p.set_ddist(in6[5]);
    in_clear(); for (T z : in6) in_add((double) z);
    VectorPV<T> c; poison(c); S.s6(p, c);
    LD a = in6[0], d = in6[1], R = in6[2], ad = in6[3], dd = in6[4], rd = in6[5], ca = std::cos(a), sa = std::sin(a), cd = std::cos(d), sd = std::sin(d);
    LD sv = std::fabs(R * ad) + std::fabs(R * dd) + std::fabs(rd);
    near_(c.get_x(), R * ca * cd, 12 * eps * R, S.n[2], "x"); near_(c.get_y(), R * sa * cd, 12 * eps * R, S.n[2], "y"); near_(c.get_z(), R * sd, 12 * eps * R, S.n[2], "z");
    near_(c.get_dx(), rd * ca * cd - R * ad * sa * cd - R * dd * ca * sd, 16 * eps * sv, S.n[2], "xdot-is-derivative");
    near_(c.get_dy(), rd * sa * cd + R * ad * ca * cd - R * dd * sa * sd, 16 * eps * sv, S.n[2], "ydot-is-derivative");
    near_(c.get_dz(), rd * sd + R * dd * cd, 16 * eps * sv, S.n[2], "zdot-is-derivative");
    VectorPV<T> g = c; if (r.coin(0.06)) { g.set_x(0); g.set_y(0); if (r.coin(0.4)) g.set_z(0); }
    SphericalPV<T> f; poison(f); S.c6(g, f); LD X = g.get_x(), Y = g.get_y(), Z = g.get_z(), XD = g.get_dx(), YD = g.get_dy(), ZD = g.get_dz();
    in(X, Y, Z, XD, YD, ZD);
    LD rxy2 = X * X + Y * Y, r2 = rxy2 + Z * Z, rr = std::sqrt(r2), rxy = std::sqrt(rxy2), spd = std::sqrt(XD * XD + YD * YD + ZD * ZD);
    if (r2 == 0) {      // null position: the direction of motion is used; a wholly null vector gives zeroes
        auto ok = [](LD z) { return z == 0 || std::fabs(z) > 1e-8L; };
        if (ok(XD) && ok(YD) && ok(ZD)) chk(std::isfinite((double) f.get_longitude()) && std::isfinite((double) f.get_dlong()) && std::isfinite((double) f.get_dlat()) && std::isfinite((double) f.get_ddist()), S.n[3], "null-position-finite", "non-finite");
        g.set_dx(0); g.set_dy(0); g.set_dz(0); poison(f); S.c6(g, f); chk(f.get_longitude() == 0 && f.get_latitude() == 0 && f.get_dist() == 0 && f.get_dlong() == 0 && f.get_dlat() == 0 && f.get_ddist() == 0, S.n[3], "null-vector-all-zero", "non-zero"); covered("null-position"); return;
    }
    if (rr < (sizeof(T) == 8 ? 1e-140L : 1e-15L)) return;
    near_(f.get_dist(), rr, 8 * eps * rr, S.n[3], "distance"); near_(f.get_ddist(), (X * XD + Y * YD + Z * ZD) / rr, 16 * eps * spd + 1e-300L, S.n[3], "distance-rate");
    if (rxy2 == 0) { chk(f.get_longitude() == 0 && f.get_dlong() == 0, S.n[3], "longitude-zero-on-axis", "%.17g %.17g", (double) f.get_longitude(), (double) f.get_dlong()); covered("polar-axis"); return; }
    near_(angsep(sph(f.get_longitude(), f.get_latitude()), V3{X, Y, Z}), 0, 12 * eps, S.n[3], "direction");
    near_(f.get_dlong(), (X * YD - Y * XD) / rxy2, 24 * eps * spd / rxy + 1e-300L, S.n[3], "longitude-rate");
    near_(f.get_dlat(), (ZD * rxy2 - Z * (X * XD + Y * YD)) / (r2 * rxy), 24 * eps * spd / rr + 1e-300L, S.n[3], "latitude-rate");
    seen(S.n[3], hd((double) f.get_dlat()));
}
GROUP("P11", sphcart, 200000, 15000000) {
    static const SC<double> D{[](const Spherical<double>& s, double* v) { dcs2c(s, v); }, [](const double* v, Spherical<double>& s) { dcc2s(v, s); }, ds2c6, dc62s, {"dcs2c", "dcc2s", "ds2c6", "dc62s"}, EPSD};
    static const SC<float> F{[](const Spherical<float>& s, float* v) { cs2c(s, v); }, [](const float* v, Spherical<float>& s) { cc2s(v, s); }, cs2c6, cc62s, {"cs2c", "cc2s", "cs2c6", "cc62s"}, EPSF};
    sc_case(r, D); sc_case(r, F);
}
// ---------------------------------------------------------------- P12
template <class T> struct SB { T (*sep_)(const Spherical<T>&, const Spherical<T>&); T (*sepv_)(const T*, const T*); T (*bear_)(const Spherical<T>&, const Spherical<T>&); T (*pav_)(const T*, const T*); const char* n[4]; LD eps; };
static LD bearing(LD a1, LD b1, LD a2, LD b2) { LD da = a2 - a1, y = std::sin(da) * std::cos(b2), x = std::sin(b2) * std::cos(b1) - std::cos(b2) * std::sin(b1) * std::cos(da); return (x != 0 || y != 0) ? std::atan2(y, x) : 0; }
template <class T> static void sb_case(Rng& r, const SB<T>& S) {
    const LD eps = S.eps; double a1 = gen_ang(r), b1 = gen_lat(r), a2 = gen_ang(r), b2 = gen_lat(r); int k = (int) r.irange(0, 11); double e = r.logu(1e-15, 1e-2);
    if (k < 3) { a2 = a1 + e * r.gauss(); b2 = b1 + e * r.gauss(); } if (k == 3) { a2 = a1 + PI + e * r.gauss(); b2 = -b1 + e * r.gauss(); } if (k == 4) { a2 = a1; b2 = b1; } if (k == 5) a2 = a1; if (k == 6) b2 = b1;
    if (k == 7) { a2 = a1 + r.irange(-3, 3) * PI / 2; b1 = 0; b2 = 0; }
    if (std::fabs(a1) > 1e4 || std::fabs(a2) > 1e4) { a1 = r.uni(-7, 7); a2 = a1 + e; }
    b1 = std::min(std::max(b1, -PI / 2), PI / 2); b2 = std::min(std::max(b2, -PI / 2), PI / 2);
    Spherical<T> s1{(T) a1, (T) b1}, s2{(T) a2, (T) b2}; in(s1.s_a, s1.s_b, s2.s_a, s2.s_b);
    LD w = angsep(sph(s1.s_a, s1.s_b), sph(s2.s_a, s2.s_b)); T g = S.sep_(s1, s2), h = S.sep_(s2, s1);
    near_(g, w, 16 * eps, S.n[0], "separation"); chk(g >= 0 && (LD) g <= PIl + 2 * eps, S.n[0], "range", "%.17g", (double) g); near_(g, h, 8 * eps, S.n[0], "symmetric");
    if (s1.s_a == s2.s_a && s1.s_b == s2.s_b) chk(g >= 0 && g <= (sizeof(T) == 8 ? 1e-15 : 1e-7), S.n[0], "coincident-is-zero", "%.17g", (double) g);
    // vectors of any length, relative accuracy even for tiny separations of exactly represented vectors
    double v1[3], v2[3]; gen_unit(r, v1); double sc1 = r.coin(0.4) ? 1 : r.logu(1e-4, 1e4), sc2 = r.coin(0.4) ? 1 : r.logu(1e-4, 1e4); if (r.coin(0.1)) { double L = sizeof(T) == 8 ? 1e70 : 1e15; sc1 = r.logu(1 / L, L); sc2 = r.logu(1 / L, L); } double dsp = r.coin(0.4) ? r.logu(1e-12, 1e-2) : 3;
    for (int q = 0; q < 3; q++) v2[q] = (v1[q] + dsp * r.gauss()) * (r.coin(0) ? 1 : 1); if (r.coin(0.15)) for (double& z : v2) z = -z; if (r.coin(0.05)) for (int q = 0; q < 3; q++) v2[q] = v1[q];
    T t1[3], t2[3]; for (int q = 0; q < 3; q++) { t1[q] = (T) (v1[q] * sc1); t2[q] = (T) (v2[q] * sc2); }
    in(t1[0], t1[1], t1[2], t2[0], t2[1], t2[2]); LD wv = angsep(v3(t1), v3(t2)); T gv = S.sepv_(t1, t2);
    near_(gv, wv, 16 * eps, S.n[1], "separation"); chk(gv >= 0 && (LD) gv <= PIl + 2 * eps, S.n[1], "range", "%.17g", (double) gv); near_(S.sepv_(t2, t1), gv, 16 * eps, S.n[1], "symmetric");
    // bearings
    in(s1.s_a, s1.s_b, s2.s_a, s2.s_b); LD sn = std::sin(w); T bg = S.bear_(s1, s2); chk(std::fabs((LD) bg) <= PIl + 2 * eps, S.n[2], "range", "%.17g", (double) bg);
    if (s1.s_a == s2.s_a && s1.s_b == s2.s_b) { near_(std::sin((LD) bg) * sn, 0, eps, S.n[2], "coincident"); covered("coincident"); }
    LD da = std::fabs((LD) s1.s_a) + std::fabs((LD) s2.s_a);
    if (sn > 1e5L * eps) neara(bg, bearing(s1.s_a, s1.s_b, s2.s_a, s2.s_b), 48 * eps + (24 + 3 * da) * eps / sn, S.n[2], "bearing");
    LD snv = std::sin(wv), cl = std::sqrt(t1[0] * (LD) t1[0] + t1[1] * (LD) t1[1]) / len(v3(t1));
    if (snv > 1e5L * eps && cl > 1e3L * eps) {
        V3 p = v3(t1), q = v3(t2); LD lo = std::atan2(p.y, p.x), la = std::atan2(p.z, std::sqrt(p.x * p.x + p.y * p.y)), lo2 = std::atan2(q.y, q.x), la2 = std::atan2(q.z, std::sqrt(q.x * q.x + q.y * q.y));
        in(t1[0], t1[1], t1[2], t2[0], t2[1], t2[2]); neara(S.pav_(t1, t2), bearing(lo, la, lo2, la2), 16 * eps + 16 * eps / snv / cl, S.n[3], "position-angle");
    }
    in(t1[0], t1[1], t1[2]); chk(S.pav_(t1, t1) == 0 || std::fabs(S.pav_(t1, t1)) <= 3.15, S.n[3], "range", "out of range");
    // due north and due east
    double lt = r.uni(-1.4, 1.4), st = r.logu(1e-6, 0.1); Spherical<T> c{(T) a1, (T) lt}, nth{(T) a1, (T) (lt + st)}; if (std::fabs(a1) < 100) { in(c.s_a, c.s_b, nth.s_b); LD sp = std::fabs((LD) nth.s_b - c.s_b); if (sp > 1e5L * eps) { near_(S.bear_(c, nth), 0, 16 * eps + 8 * eps / sp, S.n[2], "north-is-zero"); Spherical<T> ea{(T) (a1 + st), (T) 0}, eo{(T) a1, (T) 0}; if (std::fabs((LD) ea.s_a - eo.s_a) > 1e5L * eps) near_(S.bear_(eo, ea), PIl / 2, 16 * eps + (8 + da) * eps / st, S.n[2], "east-is-plus-ninety"); } }
    seen(S.n[0], hd((double) g)); seen(S.n[2], hd((double) bg)); covered(w < 1e-6L ? "tiny-separation" : w > PIl - 1e-6L ? "antipodal" : "ordinary");
}
GROUP("P12", separations, 200000, 15000000) {
    static const SB<double> D{dsep, [](const double* a, const double* b) { return dsepv(a, b); }, dbear, [](const double* a, const double* b) { return dpav(a, b); }, {"dsep", "dsepv", "dbear", "dpav"}, EPSD};
    static const SB<float> F{sep, [](const float* a, const float* b) { return sepv(a, b); }, bear, [](const float* a, const float* b) { return pav(a, b); }, {"sep", "sepv", "bear", "pav"}, EPSF};
    sb_case(r, D); sb_case(r, F);
}
// ---------------------------------------------------------------- P13
static V3 hor(LD ha, LD dec, LD phi) { LD x = -std::cos(ha) * std::cos(dec) * std::sin(phi) + std::sin(dec) * std::cos(phi), y = -std::sin(ha) * std::cos(dec), z = std::cos(ha) * std::cos(dec) * std::cos(phi) + std::sin(dec) * std::sin(phi); return {x, y, z}; }
GROUP("P13", horizon, 200000, 15000000) {
    double ha = r.coin(0.8) ? r.uni(-7, 7) : gen_ang(r), dec = gen_lat(r), phi = gen_lat(r); if (r.coin(0.05)) dec = phi; if (r.coin(0.05)) ha = 0;
    in(ha, dec, phi); V3 w = hor(ha, dec, phi); double az, el; poison(az); poison(el); de2h({ha, dec}, phi, az, el);
    near_(angsep(sph(az, el), w), 0, 36 * EPSD, "de2h", "direction"); chk(az >= 0 && az <= TWOPI, "de2h", "azimuth-range", "%.17g", az); chk(std::fabs(el) <= PI / 2, "de2h", "elevation-range", "%.17g", el);
    Spherical<double> b; poison(b); dh2e(az, el, phi, b); near_(angsep(sph(b.s_a, b.s_b), sph(ha, dec)), 0, 24 * EPSD, "dh2e", "inverts-de2h");
    chk(std::fabs(b.s_a) <= PI && std::fabs(b.s_b) <= PI / 2, "dh2e", "range", "%.17g %.17g", b.s_a, b.s_b);
    near_(zd({ha, dec}, phi), angsep(w, V3{0, 0, 1}), 16 * EPSD, "zd", "zenith-distance");
    float faz, fel; Spherical<float> fs{(float) ha, (float) dec}; if (std::fabs(ha) < 10) { e2h(fs, (float) phi, faz, fel); V3 wf = hor(fs.s_a, fs.s_b, (LD) (float) phi); near_(angsep(sph(faz, fel), wf), 0, 40 * EPSF, "e2h", "direction"); chk(faz >= 0 && faz <= (float) TWOPI, "e2h", "azimuth-range", "%.9g", faz);
        Spherical<float> fb; h2e(faz, fel, (float) phi, fb); near_(angsep(sph(fb.s_a, fb.s_b), sph(fs.s_a, fs.s_b)), 0, 40 * EPSF, "h2e", "inverts-e2h"); }
    // parallactic angle: bearing of zenith (ha 0, dec phi) seen from the star
    LD sz = std::sin(angsep(w, V3{0, 0, 1})); LD haq = std::sin((LD) ha), qc = std::sin((LD) phi) * std::cos((LD) dec) - std::cos((LD) phi) * std::sin((LD) dec) * std::cos((LD) ha), qs = std::cos((LD) phi) * haq;
    double q = pa({ha, dec}, phi); chk(std::fabs(q) <= PI, "pa", "range", "%.17g", q); if (sz > 1e-9L) neara(q, std::atan2(qs, qc), 16 * EPSD + 8 * EPSD / sz, "pa", "parallactic-angle");
    AltazMount m; poison(m); altaz({ha, dec}, phi, m);
    if (sz > 1e-3L && std::fabs(ha) < 50) {
        neara(m.get_azimuth(), az, 40 * EPSD / sz, "altaz", "azimuth"); near_(m.get_elevation(), el, 40 * EPSD / sz, "altaz", "elevation"); neara(m.get_pangle(), q, 40 * EPSD / sz, "altaz", "parallactic-angle");
        // exact derivatives from 5-point differences of extended-precision angles
        LD hstep = 2e-3L * std::min((LD) 1, sz); auto ang3 = [&](LD t, LD* o) { V3 p = hor(t, dec, phi); o[0] = std::atan2(p.y, p.x); o[1] = std::atan2(p.z, std::sqrt(p.x * p.x + p.y * p.y)); o[2] = std::atan2(std::cos((LD) phi) * std::sin(t), std::sin((LD) phi) * std::cos((LD) dec) - std::cos((LD) phi) * std::sin((LD) dec) * std::cos(t)); };
        if (std::cos((LD) dec) > 1e-3L || std::cos((LD) phi) > 0) {
            LD f[7][3]; for (int z = -3; z <= 3; z++) ang3(ha + z * hstep, f[z + 3]);
            LD vel[3], acc[3]; for (int c = 0; c < 3; c++) { LD g[7]; for (int z = 0; z < 7; z++) g[z] = std::remainder(f[z][c] - f[3][c], 2 * PIl); vel[c] = (45 * (g[4] - g[2]) - 9 * (g[5] - g[1]) + (g[6] - g[0])) / (60 * hstep); acc[c] = (270 * (g[4] + g[2]) - 27 * (g[5] + g[1]) + 2 * (g[6] + g[0]) - 490 * g[3]) / (180 * hstep * hstep); }
            LD sv = 1 / sz, sa = sv * sv;
            near_(m.get_az_velocity(), vel[0], 1e-9L * sv, "altaz", "azimuth-velocity-is-derivative"); near_(m.get_el_velocity(), vel[1], 1e-9L * sv, "altaz", "elevation-velocity-is-derivative"); near_(m.get_pa_velocity(), vel[2], 1e-9L * sv, "altaz", "pa-velocity-is-derivative");
            near_(m.get_az_acceleration(), acc[0], 1e-7L * sa, "altaz", "azimuth-acceleration-is-derivative"); near_(m.get_el_acceleration(), acc[1], 1e-7L * sa, "altaz", "elevation-acceleration-is-derivative"); near_(m.get_pa_acceleration(), acc[2], 1e-7L * sa, "altaz", "pa-acceleration-is-derivative");
        }
    } else covered("zenith-region");
    chk(m.get_azimuth() >= 0 && m.get_azimuth() <= TWOPI && std::fabs(m.get_elevation()) <= PI / 2 && std::fabs(m.get_pangle()) <= 2 * PI + std::fabs(ha), "altaz", "ranges", "%.17g %.17g %.17g", m.get_azimuth(), m.get_elevation(), m.get_pangle());
    for (double z : {m.get_az_velocity(), m.get_el_velocity(), m.get_pa_velocity(), m.get_az_acceleration(), m.get_el_acceleration(), m.get_pa_acceleration()}) chk(std::isfinite(z), "altaz", "finite", "%.17g", z);
    seen("de2h", hd(az)); seen("pa", hd(q)); seen("altaz", hd(m.get_az_acceleration()));
}
GROUP("P13", hour_angle_for_azimuth_or_pa, 200000, 15000000) {
    double lat_ = r.uni(-1.5, 1.5), dec = r.uni(-1.5, 1.5), ha = r.uni(-3.1, 3.1); bool direct = r.coin(0.5);
    if (r.coin(0.2)) lat_ = r.sign() * r.logu(1e-2, 0.2); if (r.coin(0.2)) dec = r.sign() * r.logu(1e-2, 0.2);
    for (int which = 0; which < 2; which++) {
        const char* fn = which ? "pdq2h" : "pda2h"; double target; double az, el;
        if (direct) { if (which) target = pa({ha, dec}, lat_); else { de2h({ha, dec}, lat_, az, el); target = az; } } else target = r.coin() ? r.uni(-PI, PI) : r.uni(0, TWOPI);
        double tn = std::remainder(target, TWOPI);
        if (std::fabs(tn) < 1e-3 || PI - std::fabs(tn) < 1e-3 || std::fabs(ha) < 1e-3 || std::fabs(std::fabs(lat_) - std::fabs(dec)) < 1e-3) continue;
        in(lat_, dec, target); double h1, h2; bool v1 = r.coin(), v2 = r.coin(); poison(h1); poison(h2);
        if (which) pdq2h(lat_, dec, target, h1, v1, h2, v2); else pda2h(lat_, dec, target, h1, v1, h2, v2);
        // discriminant of the spherical triangle: how far from the tangential (single-solution) situation
        LD st = std::sin((LD) tn), ct = std::cos((LD) tn), fx = which ? dec : lat_, ot = which ? lat_ : dec; LD qt = std::sin(ot) * st * std::cos(fx), qb = std::cos(ot) * std::sqrt(ct * ct + st * st * std::sin(fx) * std::sin(fx)); LD margin = qb - std::fabs(qt);
        if (margin < -1e-6L) { chk(!v1 && !v2, fn, "no-solution-reported", "flags %d %d", v1, v2); covered("no-solution"); }
        if (margin < 1e-6L) continue;
        LD tol = 1e-11L / std::sqrt(margin) / 1e-1L + 1e-9L; int nv = 0;
        for (int z = 0; z < 2; z++) {
            double h = z ? h2 : h1; bool v = z ? v2 : v1;
            chk(std::fabs(h) <= PI, fn, "hour-angle-range", "%.17g", h);
            V3 p = hor(h, dec, lat_); LD got = which ? std::atan2(std::cos((LD) lat_) * std::sin((LD) h), std::sin((LD) lat_) * std::cos((LD) dec) - std::cos((LD) lat_) * std::sin((LD) dec) * std::cos((LD) h)) : std::atan2(p.y, p.x);
            LD zd_ = std::sqrt(p.x * p.x + p.y * p.y); if (zd_ < 1e-3L || std::fabs(h) < 1e-6 || PI - std::fabs(h) < 1e-6) continue;
            if (v) { neara(got, target, tol / zd_, fn, "valid-solution-reproduces-angle"); nv++; }
            else chk(adiff(got, target) > 1e-4L, fn, "rejected-solution-does-not-reproduce-angle", "h %.17g gives the angle", h);
        }
        if (direct) { LD d = 9; if (v1) d = std::min(d, adiff(h1, ha)); if (v2) d = std::min(d, adiff(h2, ha)); V3 p = hor(ha, dec, lat_); LD zd_ = std::sqrt(p.x * p.x + p.y * p.y); if (zd_ > 1e-3L && margin > 1e-4L) near_(d, 0, tol * 100, fn, "known-hour-angle-found"); covered(nv == 2 ? "two-solutions" : "one-solution"); }
        seen(fn, hd(h1));
    }
}
// stars on the meridian, at the pole or the zenith, observers on the equator or at a pole: the adjusted critical values still satisfy the definition
GROUP("P13", critical_hour_angles, 60000, 4000000) {
    double lat_ = r.pick({0.0, PI / 2, -PI / 2, 1e-13, -1e-13, 7.0, 7.0, 7.0}); if (lat_ > 6) lat_ = r.uni(-1.5, 1.5); double dec = r.pick({0.0, PI / 2, -PI / 2, lat_, -lat_, 1e-13, -1e-10, 7.0, 7.0, 7.0}); if (dec > 6) dec = r.uni(-1.5, 1.5);
    double ha = r.pick({0.0, PI, -PI, 1e-13, -1e-13, 7.0, 7.0, 7.0}); if (ha > 6) ha = r.uni(-PI, PI); bool direct = r.coin(0.6); double tsel = r.pick({0.0, PI, -PI, PI / 2, -PI / 2, TWOPI, 1.5 * PI, 1e-13, -1e-13, 7.0}); if (tsel > 6.9) tsel = r.uni(-PI, TWOPI);
    for (int which = 0; which < 2; which++) {
        const char* fn = which ? "pdq2h" : "pda2h"; LD sl = std::sin((LD) lat_), cl = std::cos((LD) lat_), sd = std::sin((LD) dec), cd = std::cos((LD) dec);
        auto angle = [&](LD h, LD& rad) { LD y = which ? cl * std::sin(h) : -cd * std::sin(h), x = which ? sl * cd - cl * sd * std::cos(h) : sd * cl - cd * sl * std::cos(h); rad = std::sqrt(x * x + y * y); return std::atan2(y, x); };
        LD rad; double target = direct ? (double) angle(ha, rad) : tsel; if (direct && rad < 1e-3L) continue; in(lat_, dec, target, ha, which); double h1, h2; bool v1 = r.coin(), v2 = r.coin(); poison(h1); poison(h2);
        if (which) pdq2h(lat_, dec, target, h1, v1, h2, v2); else pda2h(lat_, dec, target, h1, v1, h2, v2); LD best = 9;
        for (int z = 0; z < 2; z++) if (z ? v2 : v1) { double h = z ? h2 : h1; if (!chk(std::isfinite(h) && std::fabs(h) <= PI + 1e-15, fn, "hour-angle-range", "%.17g", h)) continue; LD got = angle(h, rad); if (rad > 1e-5L) neara(got, target, 1e-7L + 4e-12L / rad, fn, "critical-solution-reproduces-angle"); best = std::min(best, adiff(h, ha)); }
        LD st = std::sin((LD) target), ct = std::cos((LD) target), fx = which ? dec : lat_, ot = which ? lat_ : dec, qt = std::sin(ot) * st * std::cos(fx), qb = std::cos(ot) * std::sqrt(ct * ct + st * st * std::sin(fx) * std::sin(fx));
        if (direct && std::cos(ot) > 1e-3L && qb - std::fabs(qt) > 1e-4L) { near_(best, 0, 1e-4L, fn, "critical-hour-angle-found"); covered(ha == 0 || std::fabs(ha) == PI ? "meridian" : "other-critical"); }
        seen(fn, hd(h1));
    }
}
// ---------------------------------------------------------------- P14
// the axis cosine can be set exactly: tangent point on an axis of the frame (vectors), or difference of one coordinate only (spherical)
template <class T> static void axis_status(Rng& r, TPPStatus (*s2)(const Spherical<T>&, const Spherical<T>&, T&, T&), TPPStatus (*v2)(const T*, const T*, T&, T&), const char* ns, const char* nv) {
    const LD TINY = 1e-6L; auto want = [&](LD den) { return den > TINY ? TPP_OK : den >= 0 ? TPP_TOO_FAR : den > -TINY ? TPP_ASTAR_ON_TP : TPP_ASTAR_TOO_FAR; };
    T c = (T) (r.coin(0.1) ? 0.0 : r.sign() * (r.coin() ? r.uni(0, 2.5e-6) : r.logu(1e-9, 1e-2))); int ax = (int) r.irange(0, 1); T sg = (T) r.sign(); T t[3] = {0, 0, 0}, p[3]; t[ax] = sg; double th = r.uni(-PI, PI); LD s = std::sqrt(1 - (LD) c * c); p[ax] = c * sg; p[1 - ax] = (T) (s * std::cos((LD) th)); p[2] = (T) (s * std::sin((LD) th));
    LD den = c; T x, y; poison(x); poison(y); in(p[0], p[1], p[2], t[0], t[1], t[2]); TPPStatus st = v2(p, t, x, y);
    if (std::fabs(std::fabs(den) - TINY) > 1e-12L) { TPPStatus w = want(den); chk(st == w, nv, "status-exact-axis-cosine", "got %d want %d (axis cosine %.9Lg)", st, w, den); LD d2 = std::fabs(den) < TINY ? (den >= 0 ? TINY : -TINY) : den, X = (ax ? -(LD) p[0] : (LD) p[1]) * sg / d2, Y = p[2] / d2; near_(x, X, 1e-5L * std::fabs(X) + 1e-5L, nv, "xi-limited"); near_(y, Y, 1e-5L * std::fabs(Y) + 1e-5L, nv, "eta-limited"); covered(w == TPP_OK ? "axis-ok" : w == TPP_TOO_FAR ? "axis-too-far" : w == TPP_ASTAR_ON_TP ? "axis-antistar-on" : "axis-antistar-too-far"); }
    Spherical<T> q{0, 0}, o{0, 0}; bool lon = r.coin(); T a = (T) (PI / 2); int k = (int) r.irange(0, sizeof(T) == 4 ? 20 : 3); if (sizeof(T) == 4) for (; k > 0; k--) a = std::nextafter(a, (T) 0); else a = (T) (PI / 2 - (r.coin(0.1) ? 0 : r.uni(0, 2.5e-6)));
    if (lon && r.coin()) { T b = (T) (PI / 2); int m = (int) r.irange(1, 20); if (sizeof(T) == 4) { for (; m > 0; m--) b = std::nextafter(b, (T) 4); } else b = (T) (PI / 2 + r.uni(0, 2.5e-6)); a = b; }
    a *= (T) r.sign(); (lon ? q.s_a : q.s_b) = a; poison(x); poison(y); in(q.s_a, q.s_b, o.s_a, o.s_b); st = s2(q, o, x, y); den = std::cos((LD) a); LD g = sizeof(T) == 4 ? 2e-9L : 1e-15L;
    if (std::fabs(std::fabs(den) - TINY) > g && std::fabs(den) > g) { TPPStatus w = want(den); chk(st == w, ns, "status-exact-axis-cosine", "got %d want %d (axis cosine %.9Lg)", st, w, den); LD d2 = std::fabs(den) < TINY ? (den >= 0 ? TINY : -TINY) : den, X = lon ? std::sin((LD) a) / d2 : 0, Y = lon ? 0 : std::sin((LD) a) / d2; LD tl = 0.01L * std::fabs(X + Y) + 1e-3L; near_(x, X, tl, ns, "xi-limited"); near_(y, Y, tl, ns, "eta-limited"); }
    seen(ns, hd((double) x));
}
GROUP("P14", exact_axis_cosine, 60000, 3000000) {
    if (idx & 1) axis_status<double>(r, ds2tp, [](const double* a, const double* b, double& x, double& y) { return dv2tp(a, b, x, y); }, "ds2tp", "dv2tp");
    else axis_status<float>(r, s2tp, [](const float* a, const float* b, float& x, float& y) { return v2tp(a, b, x, y); }, "s2tp", "v2tp");
}
template <class T> struct TPf { TPPStatus (*s2)(const Spherical<T>&, const Spherical<T>&, T&, T&); TPPStatus (*v2)(const T*, const T*, T&, T&); void (*ps)(T, T, const Spherical<T>&, Spherical<T>&); void (*pv)(T, T, const T*, T*); int (*cs)(T, T, const Spherical<T>&, Spherical<T>&, Spherical<T>&); int (*cv)(T, T, const T*, T*, T*); const char* n[6]; LD eps; };
template <class T> static void tp_case(Rng& r, const TPf<T>& F) {
    const LD eps = F.eps; double ta = r.uni(-1, 7), tb = gen_lat(r), e = r.coin(0.7) ? r.logu(1e-6, 1.0) : 3.0; double pa_ = ta + e * r.gauss() / std::max(0.05, std::cos(tb)), pb = std::min(std::max(tb + e * r.gauss(), -PI / 2), PI / 2);
    Spherical<T> t{(T) ta, (T) tb}, p{(T) pa_, (T) pb}; in(p.s_a, p.s_b, t.s_a, t.s_b);
    V3 lt = sph(t.s_a, t.s_b), lp = sph(p.s_a, p.s_b); LD den = dot(lt, lp); T xi, eta; poison(xi); poison(eta); TPPStatus st = F.s2(p, t, xi, eta);
    const LD TINY = 1e-6L, guard = sizeof(T) == 8 ? 1e-13L : 8e-7L * 4;
    V3 east{-std::sin((LD) t.s_a), std::cos((LD) t.s_a), 0}, north{-std::sin((LD) t.s_b) * std::cos((LD) t.s_a), -std::sin((LD) t.s_b) * std::sin((LD) t.s_a), std::cos((LD) t.s_b)}; LD num_x = dot(lp, east), num_y = dot(lp, north);
    if (std::fabs(den) > guard && std::fabs(std::fabs(den) - TINY) > guard) {
        TPPStatus ws = den > TINY ? TPP_OK : den >= 0 ? TPP_TOO_FAR : den > -TINY ? TPP_ASTAR_ON_TP : TPP_ASTAR_TOO_FAR;
        chk(st == ws, F.n[0], "status", "got %d want %d (axis cosine %.6Lg)", st, ws, den); char b[24]; snprintf(b, sizeof b, "status%d", ws); covered(b);
        if (std::fabs(den) > 1e-3L) { LD tol = 16 * eps / (den * den) + 8 * eps * std::fabs((LD) p.s_a - t.s_a) / (den * den); near_(xi, num_x / den, tol, F.n[0], "xi"); near_(eta, num_y / den, tol, F.n[0], "eta"); }
        else if (std::fabs(den) < TINY * 0.5L && sizeof(T) == 8) { LD d2 = den >= 0 ? TINY : -TINY; near_(xi, num_x / d2, 1e-6L, F.n[0], "xi-limited"); near_(eta, num_y / d2, 1e-6L, F.n[0], "eta-limited"); }
    }
    T vt[3] = {(T) lt.x, (T) lt.y, (T) lt.z}, vp[3] = {(T) lp.x, (T) lp.y, (T) lp.z}; T x2, y2; poison(x2); poison(y2); TPPStatus s2 = F.v2(vp, vt, x2, y2); LD cb = std::cos((LD) t.s_b);
    if (std::fabs(den) > 1e-3L && cb > 1e-3L) { chk(s2 == st, F.n[1], "status-agrees-with-spherical", "%d %d", s2, st); LD tol = 40 * eps / (den * den) / cb; near_(x2, num_x / den, tol, F.n[1], "xi"); near_(y2, num_y / den, tol, F.n[1], "eta"); }
    if (st == TPP_OK && den > 0.02L) {
        Spherical<T> b; poison(b); F.ps(xi, eta, t, b); near_(angsep(sph(b.s_a, b.s_b), lp), 0, 180 * eps / den, F.n[2], "recovers-star"); chk(b.s_a >= 0 && b.s_a <= (T) TWOPI && std::fabs((LD) b.s_b) <= PIl / 2 + eps, F.n[2], "range", "%.17g %.17g", (double) b.s_a, (double) b.s_b);
        if (cb > 1e-3L) { T q[3]; poison(q); F.pv(x2, y2, vt, q); near_(len(v3(q) - lp), 0, 80 * eps / den / cb, F.n[3], "recovers-star"); near_(len(v3(q)), 1, 40 * eps / cb, F.n[3], "unit-length"); }
        // tangent point from star and plane coordinates
        LD sdf = std::sin((LD) p.s_b) * std::sqrt(1 + (LD) xi * xi + (LD) eta * eta), r2 = std::cos((LD) p.s_b) * std::cos((LD) p.s_b) * (1 + (LD) eta * eta) - std::sin((LD) p.s_b) * std::sin((LD) p.s_b) * (LD) xi * xi;
        // the given star/plane pair is realisable, so a solution exists; near-tangential cases amplify rounding
        if (r2 > (sizeof(T) == 8 ? 1e-4L : 3e-2L) && std::fabs(std::fabs(sdf) - 1) > 1e-3L && xi * xi + eta * eta < 100) {
            Spherical<T> c1, c2; poison(c1); poison(c2); in(xi, eta, p.s_a, p.s_b, t.s_a, t.s_b); int n = F.cs(xi, eta, p, c1, c2); int wn = std::fabs(sdf) < 1 ? 1 : 2;
            chk(n == wn, F.n[4], "number-of-solutions", "got %d want %d", n, wn); LD g = (1 + (LD) xi * xi + (LD) eta * eta); LD tol = 400 * eps * g / std::sqrt(r2) / std::min((LD) 1, std::sqrt(r2));
            LD best = 9; for (int z = 0; z < n; z++) {
                Spherical<T>& c = z ? c2 : c1; V3 lc = sph(c.s_a, c.s_b); V3 ea{-std::sin((LD) c.s_a), std::cos((LD) c.s_a), 0}, no{-std::sin((LD) c.s_b) * std::cos((LD) c.s_a), -std::sin((LD) c.s_b) * std::sin((LD) c.s_a), std::cos((LD) c.s_b)}; LD dd = dot(lc, lp);
                chk(c.s_a >= 0 && c.s_a <= (T) TWOPI, F.n[4], "longitude-range", "%.17g", (double) c.s_a); chk(std::fabs((LD) c.s_b) <= (wn == 2 || z == 0 ? PIl / 2 : PIl) + 2 * eps, F.n[4], "latitude-range", "%.17g", (double) c.s_b);
                near_(dot(lp, ea) / dd, xi, tol * g, F.n[4], "solution-reproduces-xi"); near_(dot(lp, no) / dd, eta, tol * g, F.n[4], "solution-reproduces-eta"); best = std::min(best, angsep(lc, lt)); }
            if (n > 0) near_(best, 0, tol * 4, F.n[4], "true-tangent-point-among-solutions");
            covered(wn == 2 ? "two-solutions" : "one-solution");
            T w1[3], w2[3]; poison(w1); poison(w2); int nv = F.cv(xi, eta, vp, w1, w2); LD cp = std::cos((LD) p.s_b);
            if (cp > 1e-2L) { chk(nv == wn, F.n[5], "number-of-solutions", "got %d want %d", nv, wn); if (n > 0 && nv == n) { near_(len(v3(w1) - sph(c1.s_a, c1.s_b)), 0, tol * 8 / cp, F.n[5], "agrees-with-spherical-form-1"); if (n == 2) near_(len(v3(w2) - sph(c2.s_a, c2.s_b)), 0, tol * 8 / cp, F.n[5], "agrees-with-spherical-form-2"); } }
            seen(F.n[4], hd((double) c1.s_a));
        }
        seen(F.n[2], hd((double) b.s_a));
    }
    // unrealisable pairs near the poles report no solution
    T bx = (T) r.uni(0.01, 2), by = (T) r.uni(-1, 1); double ps = PI / 2 - r.logu(1e-6, 5e-2); Spherical<T> q{(T) r.uni(0, 6), (T) (r.sign() * ps)}; LD c2 = std::cos((LD) q.s_b), s2_ = std::sin((LD) q.s_b); LD r2 = c2 * c2 * (1 + (LD) by * by) - s2_ * s2_ * (LD) bx * bx;
    Spherical<T> u1, u2; in(bx, by, q.s_a, q.s_b); int n = F.cs(bx, by, q, u1, u2); if (r2 < -(LD) 1e-6 * (sizeof(T) == 8 ? 1 : 30)) { chk(n == 0, F.n[4], "impossible-pair-reports-none", "got %d", n); T vq[3] = {(T) (std::cos((LD) q.s_a) * c2), (T) (std::sin((LD) q.s_a) * c2), (T) s2_}, a1[3], a2[3]; chk(F.cv(bx, by, vq, a1, a2) == 0, F.n[5], "impossible-pair-reports-none", "claims a solution"); covered("no-solution"); }
    seen(F.n[0], hd((double) xi));
}
GROUP("P14", tangent_plane, 200000, 15000000) {
    static const TPf<double> D{ds2tp, [](const double* a, const double* b, double& x, double& y) { return dv2tp(a, b, x, y); }, dtp2s, [](double x, double y, const double* t, double* p) { dtp2v(x, y, t, p); }, dtps2c, [](double x, double y, const double* p, double* a, double* b) { return dtpv2c(x, y, p, a, b); }, {"ds2tp", "dv2tp", "dtp2s", "dtp2v", "dtps2c", "dtpv2c"}, EPSD};
    static const TPf<float> F{s2tp, [](const float* a, const float* b, float& x, float& y) { return v2tp(a, b, x, y); }, tp2s, [](float x, float y, const float* t, float* p) { tp2v(x, y, t, p); }, tps2c, [](float x, float y, const float* p, float* a, float* b) { return tpv2c(x, y, p, a, b); }, {"s2tp", "v2tp", "tp2s", "tp2v", "tps2c", "tpv2c"}, EPSF};
    tp_case(r, D); tp_case(r, F);
}
