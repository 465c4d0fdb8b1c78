// Registry: vectors, matrices, rotations, angles, sexagesimal, calendar.
#include "reg.h"
void post_rot9(Rng& r, double* x) {
    int m = (int) r.irange(0, 9);
    if (m < 6) gen_rot(r, x);
    else if (m < 9) for (int k = 0; k < 9; k++) x[k] = r.gauss() * (m == 8 ? r.logu(1e-3, 1e3) : 1.0);
    else for (int k = 0; k < 9; k++) x[k] = (double) r.irange(-1, 1);
}
static void post_rot9only(Rng& r, double* x) {
    if (r.coin(0.08)) { for (int k = 0; k < 9; k++) x[k] = k % 4 == 0; return; }
    gen_rot(r, x);
}
static void post_rot18(Rng& r, double* x) { post_rot9(r, x); post_rot9(r, x + 9); }
static void post_rvec(Rng& r, double* x) {    // rotation vectors
    if (r.coin(0.05)) { x[0] = x[1] = x[2] = 0; return; }
    gen_unit(r, x); double s = r.coin(0.2) ? r.logu(1e-9, 1e-1) : r.coin(0.2) ? PI - r.logu(1e-9, 1e-1) : r.uni(0, 10);
    for (int k = 0; k < 3; k++) x[k] *= s;
}
static void post_v3(Rng& r, double* x) { gen_vec(r, x); }
static void post_v33(Rng& r, double* x) {
    gen_vec(r, x); gen_vec(r, x + 3);
    int m = (int) r.irange(0, 11);
    if (m == 0) for (int k = 0; k < 3; k++) x[3 + k] = x[k];
    if (m == 1) for (int k = 0; k < 3; k++) x[3 + k] = -x[k] * 2;
    if (m == 2) { double e = r.logu(1e-12, 1e-3); for (int k = 0; k < 3; k++) x[3 + k] = x[k] + e * r.gauss(); }
    if (m == 3) { double e = r.logu(1e-12, 1e-3); for (int k = 0; k < 3; k++) x[3 + k] = -x[k] + e * r.gauss(); }
}
static void post_v33_apart(Rng& r, double* x) {
    for (;;) {
        post_v33(r, x);
        double c[3] = {x[1] * x[5] - x[2] * x[4], x[2] * x[3] - x[0] * x[5], x[0] * x[4] - x[1] * x[3]};
        double na = x[0] * x[0] + x[1] * x[1] + x[2] * x[2], nb = x[3] * x[3] + x[4] * x[4] + x[5] * x[5];
        if (c[0] * c[0] + c[1] * c[1] + c[2] * c[2] > 1e-18 * na * nb) return;
    }
}
static void post_m9v3(Rng& r, double* x) { post_rot9(r, x); gen_vec(r, x + 9); }

FND(dvdv, "P09 P35", 64, n_of(6, comp()), post_v33, outs(sc()) + outs(rl(0)), VIN(D, a, i); VIN(D, b, i + 3); o[1] = L::dvdv(a, b); o[0] = norm_n(i, 3) * norm_n(i + 3, 3);)
FNF(vdv, "dvdv", "P09 P35", 64, n_of(6, comp()), post_v33, outs(sc()) + outs(rl(0)), VIN(F, a, i); VIN(F, b, i + 3); o[1] = L::vdv(a, b); o[0] = norm_n(i, 3) * norm_n(i + 3, 3);)
FND(dvn, "P09 P35", 64, n_of(3, comp()), post_v3, n_of(4, rl()), VIN(D, a, i); VOUT(D, u); o[3] = L::dvn(a, u); u.put(o);)
FNF(vn, "dvn", "P09 P35", 64, n_of(3, comp()), post_v3, n_of(4, rl()), VIN(F, a, i); VOUT(F, u); o[3] = L::vn(a, u); u.put(o);)
FND(dvxv, "P09 P35", 64, n_of(6, comp()), post_v33, outs(sc()) + n_of(3, rl(0)), VIN(D, a, i); VIN(D, b, i + 3); VOUT(D, c); L::dvxv(a, b, c); c.put(o + 1); o[0] = norm_n(i, 3) * norm_n(i + 3, 3);)
FNF(vxv, "dvxv", "P09 P35", 64, n_of(6, comp()), post_v33, outs(sc()) + n_of(3, rl(0)), VIN(F, a, i); VIN(F, b, i + 3); VOUT(F, c); L::vxv(a, b, c); c.put(o + 1); o[0] = norm_n(i, 3) * norm_n(i + 3, 3);)
FND(dmxv, "P09 P35", 64, n_of(12, comp()), post_m9v3, outs(sc()) + n_of(3, rl(0)), MIN_(D, m, i); VIN(D, a, i + 9); VOUT(D, c); L::dmxv(m.v, a, c); c.put(o + 1); o[0] = norm_n(i, 9) * norm_n(i + 9, 3);)
FNF(mxv, "dmxv", "P09 P35", 64, n_of(12, comp()), post_m9v3, outs(sc()) + n_of(3, rl(0)), MIN_(F, m, i); VIN(F, a, i + 9); VOUT(F, c); L::mxv(m.v, a, c); c.put(o + 1); o[0] = norm_n(i, 9) * norm_n(i + 9, 3);)
FND(dimxv, "P09 P35", 64, n_of(12, comp()), post_m9v3, outs(sc()) + n_of(3, rl(0)), MIN_(D, m, i); VIN(D, a, i + 9); VOUT(D, c); L::dimxv(m.v, a, c); c.put(o + 1); o[0] = norm_n(i, 9) * norm_n(i + 9, 3);)
FNF(imxv, "dimxv", "P09 P35", 64, n_of(12, comp()), post_m9v3, outs(sc()) + n_of(3, rl(0)), MIN_(F, m, i); VIN(F, a, i + 9); VOUT(F, c); L::imxv(m.v, a, c); c.put(o + 1); o[0] = norm_n(i, 9) * norm_n(i + 9, 3);)
FND(dmxm, "P09 P35", 64, n_of(18, comp()), post_rot18, outs(sc()) + n_of(9, rl(0)), MIN_(D, a, i); MIN_(D, b, i + 9); MOUT(D, c); L::dmxm(a.v, b.v, c.v); c.put(o + 1); o[0] = norm_n(i, 9) * norm_n(i + 9, 9);)
FNF(mxm, "dmxm", "P09 P35", 64, n_of(18, comp()), post_rot18, outs(sc()) + n_of(9, rl(0)), MIN_(F, a, i); MIN_(F, b, i + 9); MOUT(F, c); L::mxm(a.v, b.v, c.v); c.put(o + 1); o[0] = norm_n(i, 9) * norm_n(i + 9, 9);)
FND(dav2m, "P10 P35", 64, n_of(3, comp()), post_rvec, n_of(9, rl()), VIN(D, a, i); MOUT(D, m); L::dav2m(a, m.v); m.put(o);)
FNF(av2m, "dav2m", "P10 P35", 64, n_of(3, comp()), post_rvec, n_of(9, rl()), VIN(F, a, i); MOUT(F, m); L::av2m(a, m.v); m.put(o);)
FND(dm2av, "P10 P35", 64, n_of(9, comp()), post_rot9only, n_of(3, rl()), MIN_(D, m, i); VOUT(D, a); L::dm2av(m.v, a); a.put(o);)
FNF(m2av, "dm2av", "P10 P35", 64, n_of(9, comp()), post_rot9only, n_of(3, rl()), MIN_(F, m, i); VOUT(F, a); L::m2av(m.v, a); a.put(o);)
static const char* const EUL = "xyzXYZ123 ?0";
static void post_eul(Rng& r, double* x) {      // mostly valid axis letters, sometimes terminator characters or a short string
    for (int k = 3; k < 7; k++) x[k] = r.coin(0.93) ? (double) r.irange(0, 8) : (double) r.irange(9, 11);
    x[7] = (double) (r.coin(0.7) ? 3 : r.irange(0, 4));
}
#define EULBODY(T, f) char s[5]; int q = 0; for (; q < (int) i[7]; q++) s[q] = EUL[(int) i[3 + q]]; s[q] = 0; Guard<L::Vector<T>> dummy({0, 0, 0}); MOUT(T, m); L::f(s, (T) i[0], (T) i[1], (T) i[2], m.v); m.put(o);
static std::vector<In> eul_in() { return n_of(3, ang()) + n_of(4, integer(0, 11)) + n_of(1, integer(0, 4)); }
FND(deuler, "P10 P35", 64, eul_in(), post_eul, n_of(9, rl()), EULBODY(D, deuler))
FNF(euler, "deuler", "P10 P35", 64, eul_in(), post_eul, n_of(9, rl()), EULBODY(F, euler))

// spherical / cartesian
FND(dcs2c, "P11 P35", 64, ins(ang(), lat()), nullptr, n_of(3, rl()), SIN_(D, s, i[0], i[1]); VOUT(D, v); L::dcs2c(s.v, v); v.put(o);)
FNF(cs2c, "dcs2c", "P11 P35", 64, ins(ang(), lat()), nullptr, n_of(3, rl()), SIN_(F, s, i[0], i[1]); VOUT(F, v); L::cs2c(s.v, v); v.put(o);)
static void post_cart(Rng& r, double* x) { gen_vec(r, x, 1e-6, 1e6); if (r.coin(0.05)) x[0] = x[1] = 0; if (r.coin(0.04)) x[2] = 0; }
FND(dcc2s, "P11 P35", 64, n_of(3, comp()), post_cart, outs(an(), rl()), VIN(D, v, i); SOUT(D, s); L::dcc2s(v, s.v); PUTS(s, 0);)
FNF(cc2s, "dcc2s", "P11 P35", 64, n_of(3, comp()), post_cart, outs(an(), rl()), VIN(F, v, i); SOUT(F, s); L::cc2s(v, s.v); PUTS(s, 0);)
static void post_cart6(Rng& r, double* x) {
    gen_vec(r, x, 1e-3, 1e3); gen_vec(r, x + 3, 1e-6, 1e2);
    if (r.coin(0.05)) x[0] = x[1] = 0; if (r.coin(0.03)) x[0] = x[1] = x[2] = 0; if (r.coin(0.04)) x[2] = 0;
}
#define C62S(T, f) GArr<T, 3> a(i), b(i + 3); Guard<L::VectorPV<T>> c(L::VectorPV<T>(a.v, b.v)); P<L::SphericalPV<T>> s; L::f(c.v, s.v); \
    o[0] = s.v.get_longitude(); o[1] = s.v.get_latitude(); o[2] = s.v.get_dist(); o[3] = s.v.get_dlong(); o[4] = s.v.get_dlat(); o[5] = s.v.get_ddist();
FND(dc62s, "P11 P35", 64, n_of(6, comp()), post_cart6, outs(an(), rl(), rl(0), rl(0), rl(0), rl(0)), C62S(D, dc62s))
FNF(cc62s, "dc62s", "P11 P35", 64, n_of(6, comp()), post_cart6, outs(an(), rl(), rl(0), rl(0), rl(0), rl(0)), C62S(F, cc62s))
#define S2C6(T, f) L::SphericalPV<T> s0; s0.set_longitude((T) i[0]); s0.set_latitude((T) i[1]); s0.set_dist((T) i[2]); s0.set_dlong((T) i[3]); s0.set_dlat((T) i[4]); s0.set_ddist((T) i[5]); \
    Guard<L::SphericalPV<T>> s(s0); P<L::VectorPV<T>> c; L::f(s.v, c.v); \
    o[0] = c.v.get_x(); o[1] = c.v.get_y(); o[2] = c.v.get_z(); o[3] = c.v.get_dx(); o[4] = c.v.get_dy(); o[5] = c.v.get_dz();
static std::vector<In> s6_in() { return ins(ang(), lat(), logr(1e-3, 1e3), logr(1e-6, 1e2), logr(1e-6, 1e2), logr(1e-6, 1e2)); }
FND(ds2c6, "P11 P35", 64, s6_in(), nullptr, n_of(6, rl(0)), S2C6(D, ds2c6))
FNF(cs2c6, "ds2c6", "P11 P35", 64, s6_in(), nullptr, n_of(6, rl(0)), S2C6(F, cs2c6))

// separations and bearings
static void post_two_dirs(Rng& r, double* x) {
    int m = (int) r.irange(0, 13);
    if (m == 0) { x[2] = x[0]; x[3] = x[1]; }
    if (m == 1) { double e = r.logu(1e-14, 1e-2); x[2] = x[0] + e * r.gauss(); x[3] = std::min(std::max(x[1] + e * r.gauss(), -PI / 2), PI / 2); }
    if (m == 2) { double e = r.logu(1e-14, 1e-2); x[2] = x[0] + PI + e * r.gauss(); x[3] = std::min(std::max(-x[1] + e * r.gauss(), -PI / 2), PI / 2); }
    if (m == 3) x[2] = x[0];
    if (m == 4) x[2] = x[0] + PI;
    if (m == 5) { x[1] = r.sign() * PI / 2; }
    if (m == 6) { x[3] = r.sign() * PI / 2; }
}
static std::vector<In> two_dirs() { return ins(ang(), lat(), ang(), lat()); }
FND(dsep, "P12 P35", 64, two_dirs(), post_two_dirs, outs(rl()), SIN_(D, a, i[0], i[1]); SIN_(D, b, i[2], i[3]); o[0] = L::dsep(a.v, b.v);)
FNF(sep, "dsep", "P12 P35", 64, two_dirs(), post_two_dirs, outs(rl()), SIN_(F, a, i[0], i[1]); SIN_(F, b, i[2], i[3]); o[0] = L::sep(a.v, b.v);)
FND(dsepv, "P12 P35", 64, n_of(6, comp()), post_v33, outs(rl(0)), VIN(D, a, i); VIN(D, b, i + 3); o[0] = L::dsepv(a, b);)
FNF(sepv, "dsepv", "P12 P35", 64, n_of(6, comp()), post_v33, outs(rl(0)), VIN(F, a, i); VIN(F, b, i + 3); o[0] = L::sepv(a, b);)
FND(dbear, "P12 P35", 64, two_dirs(), post_two_dirs, outs(sc()) + outs(an()), SIN_(D, a, i[0], i[1]); SIN_(D, b, i[2], i[3]); o[1] = L::dbear(a.v, b.v); o[0] = inv_sep_s(i[0], i[1], i[2], i[3]);)
FNF(bear, "dbear", "P12 P35", 64, two_dirs(), post_two_dirs, outs(sc()) + outs(an()), SIN_(F, a, i[0], i[1]); SIN_(F, b, i[2], i[3]); o[1] = L::bear(a.v, b.v); o[0] = inv_sep_s(i[0], i[1], i[2], i[3]);)
FND(dpav, "P12 P35", 64, n_of(6, comp()), post_v33_apart, outs(sc()) + outs(an()), VIN(D, a, i); VIN(D, b, i + 3); o[1] = L::dpav(a, b); o[0] = inv_sep_v(i, i + 3);)
FNF(pav, "dpav", "P12 P35", 64, n_of(6, comp()), post_v33_apart, outs(sc()) + outs(an()), VIN(F, a, i); VIN(F, b, i + 3); o[1] = L::pav(a, b); o[0] = inv_sep_v(i, i + 3);)

// angle normalisation
FND(drange, "P08 P35", 64, ins(ang()), nullptr, outs(an()), o[0] = L::drange((D) i[0]);)
FNF(range, "drange", "P08 P35", 64, ins(ang()), nullptr, outs(an()), o[0] = L::range((F) i[0]);)
FND(dranrm, "P08 P35", 64, ins(ang()), nullptr, outs(an()), o[0] = L::dranrm((D) i[0]);)
FNF(ranorm, "dranrm", "P08 P35", 64, ins(ang()), nullptr, outs(an()), o[0] = L::ranorm((F) i[0]);)

// sexagesimal
#define CR4(f, T) P<L::ConversionResult> c; L::f((int) i[0], (T) i[1], c.v); o[0] = c.v.get_hours(); o[1] = c.v.get_minutes(); o[2] = c.v.get_seconds(); o[3] = c.v.get_fraction(); o[4] = c.v.get_sign();
#define CRA(f, T) P<L::ConversionResult> c; L::f((int) i[0], (T) i[1], c.v); o[0] = c.v.get_degrees(); o[1] = c.v.get_arcminutes(); o[2] = c.v.get_arcseconds(); o[3] = c.v.get_fraction(); o[4] = c.v.get_sign();
FND(dd2tf, "P35", 0, ins(integer(-3, 9), real(-2, 2)), nullptr, n_of(5, ex()), CR4(dd2tf, D))
FNF(cd2tf, "", "P35", 0, ins(integer(-3, 4), real(-2, 2)), nullptr, n_of(5, ex()), CR4(cd2tf, F))
FND(dr2af, "P35", 0, ins(integer(-3, 9), real(-7, 7)), nullptr, n_of(5, ex()), CRA(dr2af, D))
FNF(cr2af, "", "P35", 0, ins(integer(-3, 4), real(-7, 7)), nullptr, n_of(5, ex()), CRA(cr2af, F))
FND(dr2tf, "P35", 0, ins(integer(-3, 9), real(-7, 7)), nullptr, n_of(5, ex()), CR4(dr2tf, D))
FNF(cr2tf, "", "P35", 0, ins(integer(-3, 4), real(-7, 7)), nullptr, n_of(5, ex()), CR4(cr2tf, F))
static std::vector<In> af_in() { return ins(integer(-10, 400), integer(-5, 65), real(-3, 63)); }
static std::vector<In> tf_in() { return ins(integer(-5, 30), integer(-5, 65), real(-3, 63)); }
// which of several bad fields is named is not specified: the status is compared only when at most one field is bad
#define PARSE(f, T) P<T> v; int st = (int) L::f((int) i[0], (int) i[1], (T) i[2], v.v); o[0] = v.v; { double lim = #f[1] == 'a' ? 359 : 23; int bad = (i[0] < 0 || i[0] > lim) + (i[1] < 0 || i[1] > 59) + (i[2] < 0 || i[2] >= 60); o[1] = bad > 1 ? (st != 0 ? 9 : 0) : st; }
static std::vector<Out> parse_out(double s) { return outs(rl(s), ex()); }
FND(daf2r, "P07 P35", 64, af_in(), nullptr, parse_out(1e-6), PARSE(daf2r, D))
FNF(caf2r, "daf2r", "P07 P35", 64, af_in(), nullptr, parse_out(1e-6), PARSE(caf2r, F))
FND(dtf2d, "P07 P35", 64, tf_in(), nullptr, parse_out(1e-6), PARSE(dtf2d, D))
FNF(ctf2d, "dtf2d", "P07 P35", 64, tf_in(), nullptr, parse_out(1e-6), PARSE(ctf2d, F))
FND(dtf2r, "P07 P35", 64, tf_in(), nullptr, parse_out(1e-6), PARSE(dtf2r, D))
FNF(ctf2r, "dtf2r", "P07 P35", 64, tf_in(), nullptr, parse_out(1e-6), PARSE(ctf2r, F))

// calendar
static std::vector<In> cal_in() { return ins(integer(-5000, 4000), integer(-1, 14), integer(-2, 33)); }
#define CLDJ(f) D m = -12345; int s = (int) L::f((int) i[0], (int) i[1], (int) i[2], m); o[0] = s; o[1] = m;
#define CLYD(f) int y = -12345, d = -54321; int s = (int) L::f((int) i[0], (int) i[1], (int) i[2], y, d); o[0] = s; o[1] = y; o[2] = d;
FND(cldj, "P05", 64, cal_in(), nullptr, n_of(2, ex()), CLDJ(cldj))
FND(caldj, "P05", 64, cal_in(), nullptr, n_of(2, ex()), CLDJ(caldj))
FND(clyd, "P05", 64, cal_in(), nullptr, n_of(3, ex()), CLYD(clyd))
FND(calyd, "P05", 64, cal_in(), nullptr, n_of(3, ex()), CLYD(calyd))
FND(djcl, "", 0, ins(mjd(-2500000, 4000000)), nullptr, n_of(5, ex()), L::Date d; d.d_ifraction = 0; bool s = L::djcl((D) i[0], d); o[0] = s; if (!s) { o[1] = d.d_year; o[2] = d.d_month; o[3] = d.d_day; o[4] = d.d_fraction; })
FND(djcal, "", 0, ins(integer(-1, 4), mjd(-2500000, 4000000)), nullptr, n_of(5, ex()), L::Date d; bool s = L::djcal((int) i[0], (D) i[1], d); o[0] = s; if (!s) { o[1] = d.d_year; o[2] = d.d_month; o[3] = d.d_day; o[4] = d.d_ifraction; })
