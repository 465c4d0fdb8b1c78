// Registry: horizon, tangent plane, frames, time scales, precession-nutation, ephemerides, observers, velocities.
#include "reg.h"
// ---- horizon
FND(de2h, "P13 P35", 64, ins(ang(), lat(), lat()), nullptr, lonlat(), SIN_(D, s, i[0], i[1]); ROUT(D, a); ROUT(D, e); L::de2h(s.v, (D) i[2], a.v, e.v); o[0] = a.v; o[1] = e.v;)
FNF(e2h, "de2h", "P13 P35", 64, ins(ang(), lat(), lat()), nullptr, lonlat(), SIN_(F, s, i[0], i[1]); ROUT(F, a); ROUT(F, e); L::e2h(s.v, (F) i[2], a.v, e.v); o[0] = a.v; o[1] = e.v;)
FND(dh2e, "P13 P35", 64, ins(ang(), lat(), lat()), nullptr, lonlat(), SOUT(D, s); L::dh2e((D) i[0], (D) i[1], (D) i[2], s.v); PUTS(s, 0);)
FNF(h2e, "dh2e", "P13 P35", 64, ins(ang(), lat(), lat()), nullptr, lonlat(), SOUT(F, s); L::h2e((F) i[0], (F) i[1], (F) i[2], s.v); PUTS(s, 0);)
FND(zd, "P13", 64, ins(ang(), lat(), lat()), nullptr, outs(rl()), SIN_(D, s, i[0], i[1]); o[0] = L::zd(s.v, (D) i[2]);)
FND(pa, "P13", 64, ins(ang(), lat(), lat()), nullptr, outs(an()), SIN_(D, s, i[0], i[1]); o[0] = L::pa(s.v, (D) i[2]);)
FND(altaz, "P13", 64, ins(ang(), lat(), lat()), nullptr, outs(an(), rl(), rl(), rl(), rl(), rl(), an(), rl(), rl()),
    SIN_(D, s, i[0], i[1]); P<L::AltazMount> m; L::altaz(s.v, (D) i[2], m.v);
    o[0] = m.v.get_azimuth(); o[1] = m.v.get_az_velocity(); o[2] = m.v.get_az_acceleration(); o[3] = m.v.get_elevation(); o[4] = m.v.get_el_velocity();
    o[5] = m.v.get_el_acceleration(); o[6] = m.v.get_pangle(); o[7] = m.v.get_pa_velocity(); o[8] = m.v.get_pa_acceleration();)
#define P2H(f) ROUT(D, h1); ROUT(D, h2); bool v1 = false; bool v2 = false; L::f((D) i[0], (D) i[1], (D) i[2], h1.v, v1, h2.v, v2); o[0] = v1; o[1] = v2; o[2] = v1 ? h1.v : (D) 0; o[3] = v2 ? h2.v : (D) 0;
static void post_p2h(Rng& r, double* x) { for (int k = 0; k < 3; k++) { double q = std::fabs(std::remainder(x[k], PI / 2)); if (q < 1e-3) x[k] += r.sign() * r.uni(2e-3, 0.5); if (k < 2 && std::fabs(x[k]) > PI / 2) x[k] = r.uni(-1.5, 1.5); } if (std::fabs(std::fabs(x[0]) - std::fabs(x[1])) < 1e-3) x[0] *= 0.9; }
FND(pda2h, "P13", 64, ins(lat(), lat(), ang()), post_p2h, outs(ex(), ex(), an(), an()), P2H(pda2h))
FND(pdq2h, "P13", 64, ins(lat(), lat(), ang()), post_p2h, outs(ex(), ex(), an(), an()), P2H(pdq2h))
// ---- tangent plane
static void post_s2tp(Rng& r, double* x) {
    int m = (int) r.irange(0, 9); double e = m < 5 ? r.logu(1e-8, 0.5) : 2.0;
    if (m < 6) { x[0] = x[2] + e * r.gauss(); x[1] = std::min(std::max(x[3] + e * r.gauss(), -PI / 2), PI / 2); }
    if (m == 6) { x[0] = x[2] + PI + r.logu(1e-8, 0.5) * r.sign(); x[1] = std::min(std::max(-x[3] + r.logu(1e-8, .5) * r.sign(), -PI / 2), PI / 2); }
    if (m == 7) { x[0] = x[2]; double d = x[3] > 0 ? x[3] - PI / 2 : x[3] + PI / 2; x[1] = d + (r.coin() ? 0 : r.sign() * r.logu(1e-9, 1e-4)); x[1] = std::min(std::max(x[1], -PI / 2), PI / 2); }
}
#define S2TP(f, T) SIN_(T, p, i[0], i[1]); SIN_(T, t, i[2], i[3]); ROUT(T, x); ROUT(T, y); o[2] = (int) L::f(p.v, t.v, x.v, y.v); o[0] = x.v; o[1] = y.v;
static std::vector<In> tpin() { return ins(ang(), lat(), ang(), lat()); }
static std::vector<Out> tpout() { return outs(rl(), rl(), ex()); }
FND(ds2tp, "P14 P35", 64, tpin(), post_s2tp, tpout(), S2TP(ds2tp, D))
FNF(s2tp, "ds2tp", "P14 P35", 64, tpin(), post_s2tp, tpout(), S2TP(s2tp, F))
#define V2TP(f, T) L::Vector<T> pv; L::Vector<T> tv; { T ca = std::cos((T) i[0]); T sa = std::sin((T) i[0]); T cd = std::cos((T) i[1]); T sd = std::sin((T) i[1]); pv[0] = ca * cd; pv[1] = sa * cd; pv[2] = sd; \
      ca = std::cos((T) i[2]); sa = std::sin((T) i[2]); cd = std::cos((T) i[3]); sd = std::sin((T) i[3]); tv[0] = ca * cd; tv[1] = sa * cd; tv[2] = sd; }
static void post_vtp(Rng& r, double* x) {       // x[0..5]: unit vectors of point and tangent point
    double a[4]; for (int k = 0; k < 4; k++) a[k] = k & 1 ? gen_lat(r) : gen_ang(r);
    post_s2tp(r, a);
    if (r.coin(0.03)) a[3] = r.sign() * PI / 2;
    for (int k = 0; k < 2; k++) { x[3 * k] = std::cos(a[2 * k]) * std::cos(a[2 * k + 1]); x[3 * k + 1] = std::sin(a[2 * k]) * std::cos(a[2 * k + 1]); x[3 * k + 2] = std::sin(a[2 * k + 1]); }
    if (r.coin(0.05)) { x[3] = x[4] = 0; x[5] = r.sign(); }
}
#define DV2TP(f, T) VIN(T, p, i); VIN(T, t, i + 3); ROUT(T, x); ROUT(T, y); o[2] = (int) L::f(p, t, x.v, y.v); o[0] = x.v; o[1] = y.v;
FND(dv2tp, "P14 P35", 64, n_of(6, comp()), post_vtp, tpout(), DV2TP(dv2tp, D))
FNF(v2tp, "dv2tp", "P14 P35", 64, n_of(6, comp()), post_vtp, tpout(), DV2TP(v2tp, F))
static std::vector<In> xyin() { return ins(logr(1e-9, 3), logr(1e-9, 3), ang(), lat()); }
#define TP2S(f, T) SIN_(T, t, i[2], i[3]); SOUT(T, p); L::f((T) i[0], (T) i[1], t.v, p.v); PUTS(p, 0);
FND(dtp2s, "P14 P35", 64, xyin(), nullptr, lonlat(), TP2S(dtp2s, D))
FNF(tp2s, "dtp2s", "P14 P35", 64, xyin(), nullptr, lonlat(), TP2S(tp2s, F))
static void post_xyv(Rng& r, double* x) { double a = gen_ang(r), b = gen_lat(r); x[2] = std::cos(a) * std::cos(b); x[3] = std::sin(a) * std::cos(b); x[4] = std::sin(b); if (r.coin(0.05)) { x[2] = x[3] = 0; x[4] = r.sign(); } }
static std::vector<In> xyvin() { return ins(logr(1e-9, 3), logr(1e-9, 3), comp(), comp(), comp()); }
#define TP2V(f, T) VIN(T, t, i + 2); VOUT(T, p); L::f((T) i[0], (T) i[1], t, p); p.put(o);
FND(dtp2v, "P14 P35", 64, xyvin(), post_xyv, n_of(3, rl()), TP2V(dtp2v, D))
FNF(tp2v, "dtp2v", "P14 P35", 64, xyvin(), post_xyv, n_of(3, rl()), TP2V(tp2v, F))
static void post_tps2c(Rng& r, double* x) { if (PI / 2 - std::fabs(x[3]) < 1e-3) x[3] = std::copysign(PI / 2 - r.logu(1e-3, 1e-1), x[3]); }
#define TPS2C(f, T) SIN_(T, p, i[2], i[3]); SOUT(T, a); SOUT(T, b); int n = L::f((T) i[0], (T) i[1], p.v, a.v, b.v); o[0] = n; for (int q = 1; q < 5; q++) o[q] = 0; if (n > 0) { PUTS(a, 1); } if (n > 1) { PUTS(b, 3); }
static std::vector<Out> s2out() { return outs(ex()) + lonlat() + lonlat(); }
FND(dtps2c, "P14 P35", 64, xyin(), post_tps2c, s2out(), TPS2C(dtps2c, D))
FNF(tps2c, "dtps2c", "P14 P35", 64, xyin(), post_tps2c, s2out(), TPS2C(tps2c, F))
#define TPV2C(f, T) VIN(T, p, i + 2); VOUT(T, a); VOUT(T, b); int n = L::f((T) i[0], (T) i[1], p, a, b); o[0] = n; for (int q = 1; q < 7; q++) o[q] = 0; if (n > 0) a.put(o + 1); if (n > 1) b.put(o + 4);
static std::vector<Out> v2out() { return outs(ex()) + n_of(6, rl()); }
FND(dtpv2c, "P14 P35", 64, xyvin(), post_xyv, v2out(), TPV2C(dtpv2c, D))
FNF(tpv2c, "dtpv2c", "P14 P35", 64, xyvin(), post_xyv, v2out(), TPV2C(tpv2c, F))
// ---- time scales and epochs
FND(dat, "P15", 64, ins(mjd(-700000, 800000)), nullptr, outs(rl()), o[0] = L::dat((D) i[0]);)
FND(dtt, "P15", 64, ins(mjd(-700000, 800000)), nullptr, outs(rl()), o[0] = L::dtt((D) i[0]);)
FND(dt, "P15", 64, ins(real(-4000, 4000)), nullptr, outs(rl()), o[0] = L::dt((D) i[0]);)
FND(epb, "P16", 64, ins(mjd(-700000, 800000)), nullptr, outs(rl()), o[0] = L::epb((D) i[0]);)
FND(epb2d, "P16", 64, ins(real(-1000, 4000)), nullptr, outs(rl()), o[0] = L::epb2d((D) i[0]);)
FND(epj, "P16", 64, ins(mjd(-700000, 800000)), nullptr, outs(rl()), o[0] = L::epj((D) i[0]);)
FND(epj2d, "P16", 64, ins(real(-1000, 4000)), nullptr, outs(rl()), o[0] = L::epj2d((D) i[0]);)
static const char* const EPC = "BbJjX";
static void post_epco(Rng& r, double* x) { if (x[0] == 4 && x[1] == 4) x[(int) r.irange(0, 1)] = (double) r.irange(0, 3); }
FND(epco, "P16", 64, ins(integer(0, 4), integer(0, 4), real(-1000, 4000)), post_epco, outs(rl(2000)), o[0] = L::epco(EPC[(int) i[0]], EPC[(int) i[1]], (D) i[2]);)
FND(gmst, "P16", 64, ins(mjd(-700000, 800000)), nullptr, outs(an()), o[0] = L::gmst((D) i[0]);)
static void post_gmsta(Rng& r, double* x) { if (r.coin(0.6)) x[0] = std::floor(x[0]); if (r.coin(0.05)) std::swap(x[0], x[1]); }
FND(gmsta, "P16", 64, ins(mjd(-700000, 800000), real(-1, 2)), post_gmsta, outs(an()), o[0] = L::gmsta((D) i[0], (D) i[1]);)
FND(rcc, "P17", 64, ins(mjd(-300000, 400000), real(0, 1), ang(), real(0, 6400), real(-6400, 6400)), nullptr, outs(rl(1e-3)), o[0] = L::rcc((D) i[0], (D) i[1], (D) i[2], (D) i[3], (D) i[4]);)
// ---- precession, nutation
FND(prec, "P18", 64, ins(real(0, 4000), real(0, 4000)), nullptr, n_of(9, rl()), MOUT(D, m); L::prec((D) i[0], (D) i[1], m.v); m.put(o);)
FND(precl, "P18", 64, ins(real(-4000, 8000), real(-4000, 8000)), nullptr, n_of(9, rl()), MOUT(D, m); L::precl((D) i[0], (D) i[1], m.v); m.put(o);)
FND(prebn, "P18", 64, ins(real(1000, 2800), real(1000, 2800)), nullptr, n_of(9, rl()), MOUT(D, m); L::prebn((D) i[0], (D) i[1], m.v); m.put(o);)
FND(preces, "P18", 64, ins(integer(0, 6), real(1000, 3000), real(1000, 3000), ang(), lat()), nullptr, lonlat(), L::Spherical<D> s{(D) i[3], (D) i[4]}; L::preces((L::Catalogue) (int) i[0], (D) i[1], (D) i[2], s); o[0] = s.s_a; o[1] = s.s_b;)
FND(nutc, "P19", 64, ins(mjd(-300000, 400000)), nullptr, outs(rl(1e-4), rl(1e-4), rl(0)), ROUT(D, a); ROUT(D, b); ROUT(D, c); L::nutc((D) i[0], a.v, b.v, c.v); o[0] = a.v; o[1] = b.v; o[2] = c.v;)
FND(nutc80, "P19", 64, ins(mjd(-300000, 400000)), nullptr, outs(rl(1e-4), rl(1e-4), rl(0)), ROUT(D, a); ROUT(D, b); ROUT(D, c); L::nutc80((D) i[0], a.v, b.v, c.v); o[0] = a.v; o[1] = b.v; o[2] = c.v;)
FND(nut, "P19", 64, ins(mjd(-300000, 400000)), nullptr, n_of(9, rl()), MOUT(D, m); L::nut((D) i[0], m.v); m.put(o);)
FND(prenut, "P19", 64, ins(real(1000, 3000), mjd(-300000, 400000)), nullptr, n_of(9, rl()), MOUT(D, m); L::prenut((D) i[0], (D) i[1], m.v); m.put(o);)
FND(ecmat, "P19 P20", 64, ins(mjd(-300000, 400000)), nullptr, n_of(9, rl()), MOUT(D, m); L::ecmat((D) i[0], m.v); m.put(o);)
FND(eqeqx, "P19", 64, ins(mjd(-300000, 400000)), nullptr, outs(rl(1e-4)), o[0] = L::eqeqx((D) i[0]);)
// ---- frames
#define S2S(f) SIN_(D, s, i[0], i[1]); SOUT(D, t); L::f(s.v, t.v); PUTS(t, 0);
#define S2SD(f) SIN_(D, s, i[0], i[1]); SOUT(D, t); L::f(s.v, (D) i[2], t.v); PUTS(t, 0);
FND(eqgal, "P20", 64, ins(ang(), lat()), nullptr, lonlat(), S2S(eqgal))
FND(galeq, "P20", 64, ins(ang(), lat()), nullptr, lonlat(), S2S(galeq))
FND(galsup, "P20", 64, ins(ang(), lat()), nullptr, lonlat(), S2S(galsup))
FND(supgal, "P20", 64, ins(ang(), lat()), nullptr, lonlat(), S2S(supgal))
FND(eg50, "P20", 64, ins(ang(), lat()), nullptr, lonlat(), S2S(eg50))
FND(ge50, "P20", 64, ins(ang(), lat()), nullptr, lonlat(), S2S(ge50))
FND(eqecl, "P20", 64, ins(ang(), lat(), mjd(-300000, 400000)), nullptr, lonlat(), S2SD(eqecl))
FND(ecleq, "P20", 64, ins(ang(), lat(), mjd(-300000, 400000)), nullptr, lonlat(), S2SD(ecleq))
FND(etrms, "P21", 64, ins(real(1000, 3000)), nullptr, n_of(3, rl(1e-5)), VOUT(D, v); L::etrms((D) i[0], v); v.put(o);)
FND(addet, "P21", 64, ins(ang(), lat(), real(1000, 3000)), nullptr, lonlat(), S2SD(addet))
FND(subet, "P21", 64, ins(ang(), lat(), real(1000, 3000)), nullptr, lonlat(), S2SD(subet))
static void post_pm(Rng& r, double* x) { if (r.coin(0.15)) x[2] = x[3] = 0; if (r.coin(0.15)) x[4] = 0; if (r.coin(0.15)) x[5] = 0; if (r.coin(0.1)) x[7] = x[6]; if (r.coin(0.6)) { x[5] = std::fmod(x[5], 300.0); x[6] = r.uni(1800, 2200); x[7] = r.coin() ? 2000.0 : r.uni(1800, 2200); }
    double k = 365.25 * 86400 / 149597870 * 4.848136811e-6 * x[4] * x[5] * (x[7] - x[6]); if (k < -0.5 || k > 2) x[5] *= r.uni(0.1, 0.5) / std::fabs(k); }    // a star that passes close by loses digits to cancellation: proper_motion covers it
FND(pm, "P21", 64, ins(ang(), lat(), logr(1e-9, 2e-4), logr(1e-9, 2e-4), real(0, 2), real(-1500, 1500), real(-2000, 6000), real(-2000, 6000)), post_pm, lonlat(),
    SIN_(D, s, i[0], i[1]); SIN_(D, m, i[2], i[3]); SOUT(D, t); L::pm(s.v, m.v, (D) i[4], (D) i[5], (D) i[6], (D) i[7], t.v); PUTS(t, 0);)
// ---- ephemerides
FND(epv, "P22", 64, ins(mjd(15020, 88069)), nullptr, n_of(3, rl()) + n_of(3, rl(0.02)) + n_of(3, rl()) + n_of(3, rl(0.02)),
    VOUT(D, a); VOUT(D, b); VOUT(D, c); VOUT(D, d); L::epv((D) i[0], a, b, c, d); a.put(o); b.put(o + 3); c.put(o + 6); d.put(o + 9);)
static void post_evp(Rng& r, double* x) { if (r.coin(0.3)) x[1] = r.coin() ? 0.0 : -1.0; else if (r.coin(0.4)) x[1] = r.coin() ? 2000.0 : 1950.0; }
FND(evp, "P22", 64, ins(mjd(15020, 88069), real(1900, 2100)), post_evp, n_of(3, rl(2e-7)) + n_of(3, rl()) + n_of(3, rl(2e-7)) + n_of(3, rl()),
    VOUT(D, a); VOUT(D, b); VOUT(D, c); VOUT(D, d); L::evp((D) i[0], (D) i[1], a, b, c, d); a.put(o); b.put(o + 3); c.put(o + 6); d.put(o + 9);)
#define PVF(f, T) P<L::VectorPV<T>> c; L::f((int) i[0], (int) i[1], (T) i[2], c.v); o[0] = c.v.get_x(); o[1] = c.v.get_y(); o[2] = c.v.get_z(); o[3] = c.v.get_dx(); o[4] = c.v.get_dy(); o[5] = c.v.get_dz();
static std::vector<In> ydf() { return ins(integer(1900, 2100), integer(1, 366), real(0, 1)); }
FNF(earth, "", "P22", 64, ydf(), nullptr, n_of(3, rl()) + n_of(3, rl(2e-7)), PVF(earth, F))
FNF(ecor, "", "P22", 64, ins(ang(), lat(), integer(1900, 2100), integer(1, 366), real(0, 1)), nullptr, outs(rl(30), rl(500)),
    L::Spherical<F> s{(F) i[0], (F) i[1]}; ROUT(F, v); ROUT(F, t); L::ecor(s, (int) i[2], (int) i[3], (F) i[4], v.v, t.v); o[0] = v.v; o[1] = t.v;)
FND(dmoon, "P23", 64, ins(mjd(15020, 88069)), nullptr, n_of(3, rl(2.6e-3)) + n_of(3, rl(7e-9)),
    P<L::VectorPV<D>> c; L::dmoon((D) i[0], c.v); o[0] = c.v.get_x(); o[1] = c.v.get_y(); o[2] = c.v.get_z(); o[3] = c.v.get_dx(); o[4] = c.v.get_dy(); o[5] = c.v.get_dz();)
FNF(moon, "", "P23", 64, ydf(), nullptr, n_of(3, rl(2.6e-3)) + n_of(3, rl(7e-9)), PVF(moon, F))
// ---- observers
static void post_height(Rng& r, double* x) { if (r.coin(0.8)) x[1] = r.coin(0.1) ? r.uni(-11000, 0) : r.coin(0.1) ? r.logu(1e-3, 1e4) : r.uni(-500, 20000); }
FND(geoc, "P24", 64, ins(lat(), real(-11000, 4e7)), post_height, n_of(2, rl(4e-5)), ROUT(D, a); ROUT(D, b); L::geoc((D) i[0], (D) i[1], a.v, b.v); o[0] = a.v; o[1] = b.v;)
FND(pvobs, "P24", 64, ins(lat(), real(-11000, 4e7), ang()), post_height, n_of(3, rl(4e-5)) + n_of(3, rl(3e-9)),
    P<L::VectorPV<D>> c; L::pvobs((D) i[0], (D) i[1], (D) i[2], c.v); o[0] = c.v.get_x(); o[1] = c.v.get_y(); o[2] = c.v.get_z(); o[3] = c.v.get_dx(); o[4] = c.v.get_dy(); o[5] = c.v.get_dz();)
static void post_polmo(Rng& r, double* x) { if (PI / 2 - std::fabs(x[1]) < 1e-4) x[1] = std::copysign(PI / 2 - r.logu(1e-4, 1e-1), x[1]); }
FND(polmo, "P24", 64, ins(ang(), lat(), real(-1e-4, 1e-4), real(-1e-4, 1e-4)), post_polmo, outs(lp(), rl(), rl(), rl()), ROUT(D, a); ROUT(D, b); ROUT(D, c); L::polmo((D) i[0], (D) i[1], (D) i[2], (D) i[3], a.v, b.v, c.v); o[0] = a.v; o[1] = b.v; o[2] = std::sin(c.v) * std::cos(b.v); o[3] = std::cos(c.v) * std::cos(b.v);)
FNF(rverot, "", "P25", 64, ins(lat(), ang(), lat(), ang()), nullptr, outs(rl(0.5)), SIN_(F, s, i[1], i[2]); o[0] = L::rverot((F) i[0], s.v, (F) i[3]);)
#define RV(f) SIN_(F, s, i[0], i[1]); o[0] = L::f(s.v);
FNF(rvgalc, "", "P25", 64, ins(ang(), lat()), nullptr, outs(rl(220)), RV(rvgalc))
FNF(rvlg, "", "P25", 64, ins(ang(), lat()), nullptr, outs(rl(300)), RV(rvlg))
FNF(rvlsrd, "", "P25", 64, ins(ang(), lat()), nullptr, outs(rl(17)), RV(rvlsrd))
FNF(rvlsrk, "", "P25", 64, ins(ang(), lat()), nullptr, outs(rl(20)), RV(rvlsrk))
// ---- refraction
static void post_refro(Rng& r, double* x) {
    if (r.coin(0.6)) {      // plausible site
        x[1] = r.uni(0, 5000); x[2] = r.uni(250, 310); x[3] = 1013.25 * std::exp(-x[1] / 8400) * r.uni(0.95, 1.05); x[4] = r.uni(0, 1); x[7] = r.uni(0.0055, 0.0075); x[8] = 1e-8;
        if (r.coin(0.7)) x[5] = r.uni(0.3, 2.5); else x[5] = r.logu(101, 1e5);
        if (r.coin(0.8)) x[0] = r.uni(-93, 93) * D2R;
    } else { x[0] = r.uni(-85, 85) * D2R; x[2] = std::max(x[2], 180.0); x[3] = std::min(x[3], 1200.0); x[2] = std::min(x[2], 330.0); x[8] = std::min(x[8], 1e-6); if (x[7] > 0 && r.coin()) x[7] = r.uni(0.004, 0.01); }
    if (r.coin(0.06)) { x[1] = r.uni(9000, 80000); x[2] = r.uni(200, 280); x[3] = 1013.25 * std::exp(-x[1] / 7000) * r.uni(0.9, 1.1); x[4] = 0; x[5] = r.uni(0.3, 2.5); x[7] = r.uni(0.0055, 0.0075); x[8] = 1e-8; }      // balloon or stratospheric aircraft
    if ((x[5] > 99 || x[5] < 0.2) && std::fabs(std::remainder(x[0], 2 * PI)) > 1.35) x[0] = r.uni(-1.35, 1.35);   // near-horizon radio ducting is chaotic
    if (x[5] > 99 && x[2] > 305) x[2] = r.uni(250, 305);
    if (x[3] > 0 && x[3] < 200) { if (r.coin()) x[3] = r.uni(200, 1100); else x[4] = 0; }      // saturation pressure above ambient pressure is outside the model
    // ducting atmospheres (ray curvature exceeding the curvature of the layers) are outside the model
    { double w2 = std::max(x[5], 0.1); w2 *= w2; double k = x[5] > 100 ? 1.2e-4 : (287.6155 + (1.62887 + 0.0136 / w2) / w2) * 273.15e-6 / 1013.25, T = std::min(std::max(x[2], 100.0), 500.0); x[3] = std::min(x[3], 0.7 * T * T / (6.46e6 * 0.0345 * k)); }
}
FND(refro, "P27", 64, ins(ang(), real(-1200, 26000), real(90, 510), real(-10, 10100), real(-0.1, 1.1), real(0.05, 1e6), lat(), real(-0.012, 0.012), real(1e-10, 0.11)), post_refro, outs(rl(1e-2)),
    o[0] = L::refro((D) i[0], (D) i[1], (D) i[2], (D) i[3], (D) i[4], (D) i[5], (D) i[6], (D) i[7], (D) i[8]);)
static void post_refco(Rng& r, double* x) { double y[9] = {0}; for (int k = 0; k < 8; k++) y[k + 1] = x[k]; post_refro(r, y); for (int k = 0; k < 8; k++) x[k] = y[k + 1]; }
FND(refco, "P27", 64, ins(real(-1200, 26000), real(90, 510), real(-10, 10100), real(-0.1, 1.1), real(0.05, 1e6), lat(), real(-0.012, 0.012), real(1e-10, 0.11)), post_refco, outs(rl(1e-3), rl(1e-6)),
    ROUT(D, a); ROUT(D, b); L::refco((D) i[0], (D) i[1], (D) i[2], (D) i[3], (D) i[4], (D) i[5], (D) i[6], (D) i[7], a.v, b.v); o[0] = a.v; o[1] = b.v;)
static void post_met(Rng& r, double* x) { if (x[1] > 0 && x[1] < 200) { if (r.coin()) x[1] = r.uni(200, 1100); else x[2] = 0; } if (x[0] > 330 && r.coin(0.8)) x[0] = r.uni(200, 330); if (x[0] > 330) x[2] = 0; }
FND(refcoq, "P27", 64, ins(real(90, 510), real(-10, 10100), real(-0.1, 1.1), real(0.05, 300)), post_met, outs(rl(1e-4), rl(1e-7)), ROUT(D, a); ROUT(D, b); L::refcoq((D) i[0], (D) i[1], (D) i[2], (D) i[3], a.v, b.v); o[0] = a.v; o[1] = b.v;)
FND(atmdsp, "P27", 64, ins(real(90, 510), real(-10, 10100), real(-0.1, 1.1), real(0.05, 120), real(0, 1e-3), real(-1e-5, 0), real(0.05, 120)), post_met, outs(rl(1e-4), rl(1e-7)),
    ROUT(D, a); ROUT(D, b); L::atmdsp((D) i[0], (D) i[1], (D) i[2], (D) i[3], (D) i[4], (D) i[5], (D) i[6], a.v, b.v); o[0] = a.v; o[1] = b.v;)
FND(refz, "P28", 64, ins(real(0, PI), real(0, 6e-4), real(-2e-6, 0)), nullptr, outs(rl()), o[0] = L::refz((D) i[0], (D) i[1], (D) i[2]);)
static void post_refv(Rng& r, double* x) { double a = gen_ang(r), b = r.coin(0.85) ? r.uni(-0.1, PI / 2) : gen_lat(r); x[0] = std::cos(a) * std::cos(b); x[1] = std::sin(a) * std::cos(b); x[2] = std::sin(b); if (r.coin(0.04)) { x[0] = x[1] = 0; x[2] = 1; } }
FND(refv, "P28", 64, ins(comp(), comp(), comp(), real(0, 6e-4), real(-2e-6, 0)), post_refv, n_of(3, rl()), VIN(D, v, i); VOUT(D, w); L::refv(v, (D) i[3], (D) i[4], w); w.put(o);)
FND(airmas, "P28", 64, ins(real(-3.5, 3.5)), nullptr, outs(rl()), o[0] = L::airmas((D) i[0]);)
// ---- distortion
FND(pcd, "P32", 64, ins(logr(1e-4, 500), logr(1e-6, 2), logr(1e-6, 2)), nullptr, n_of(2, rl(0)), D x = (D) i[1]; D y = (D) i[2]; L::pcd((D) i[0], x, y); o[0] = x; o[1] = y;)
FND(unpcd, "P32", 64, ins(logr(1e-4, 500), logr(1e-6, 2), logr(1e-6, 2)), nullptr, outs(sc(), rl(0), rl(0)), D x = (D) i[1]; D y = (D) i[2]; o[0] = i[0] == 0 ? 0 : 1 / std::sqrt(std::fabs((D) i[0])); L::unpcd((D) i[0], x, y); o[1] = x; o[2] = y;)
