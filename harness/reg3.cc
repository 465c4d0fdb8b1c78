// Registry: plate models, linear algebra on caller-sized arrays, combinatorics, observatory table (mostly for purity/concurrency).
#include "reg.h"
static void post_fit6(Rng& r, double* x) { for (int k = 0; k < 6; k++) x[k] = r.gauss() * (r.coin(0.3) ? r.logu(1e-3, 1e2) : 1.0); if (r.coin(0.1)) { x[2] = x[4] = 0; } if (r.coin(0.05)) { x[4] = 2 * x[1]; x[5] = 2 * x[2]; } if (r.coin(0.3)) { double s = r.logu(1e-8, 1e6); for (int k = 0; k < 6; k++) x[k] *= s; } }
#define FC(n, p) L::FitCoeffs n##0; for (int q = 0; q < 6; q++) n##0[q] = (D) (p)[q]; Guard<L::FitCoeffs> n(n##0)
FND(xy2xy, "P31", 64, n_of(8, comp()), post_fit6, n_of(2, rl(0)), FC(m, i); ROUT(D, x); ROUT(D, y); L::xy2xy((D) i[6], (D) i[7], m.v, x.v, y.v); o[0] = x.v; o[1] = y.v;)
FND(invf, "P31", 64, n_of(6, comp()), post_fit6, n_of(6, rl(0)) + outs(ex()), FC(m, i); P<L::FitCoeffs> w; bool s = L::invf(m.v, w.v); o[6] = s; for (int q = 0; q < 6; q++) o[q] = s ? w.v[q] : (D) 0;)
static void post_fit6r(Rng& r, double* x) { do post_fit6(r, x); while (std::fabs(x[1] * x[5] - x[2] * x[4]) < 3e-2 * std::hypot(x[1], x[2]) * std::hypot(x[4], x[5])); }
FND(dcmpf, "P31", 64, n_of(6, comp()), post_fit6r, outs(rl(0), rl(0), an(), an(), sc(), rl(0), rl(0)), FC(m, i); P<D> a[6]; L::dcmpf(m.v, a[0].v, a[1].v, a[2].v, a[3].v, a[4].v, a[5].v); for (int q = 0; q < 4; q++) o[q] = a[q + 2].v; o[5] = a[0].v; o[6] = a[1].v;
    { D s1 = std::fabs((D) i[0]) + std::fabs((D) i[3]); D s2 = 0; for (int q : {1, 2, 4, 5}) s2 += std::fabs((D) i[q]); D dd = std::fabs((D) i[1] * (D) i[5] - (D) i[2] * (D) i[4]); o[4] = s1 * s2 / dd * ((D) 2 + (D) 0.01 * s2 * s2 / dd); })
static void post_samples(Rng& r, double* x) {       // x[0]=sbr, x[1]=n, then 8 expected, 8 measured pairs
    double c[6]; post_fit6(r, c); double noise = r.coin(0.3) ? 0 : r.logu(1e-6, 0.3);
    for (int tries = 0; tries < 50; tries++) {
    for (int k = 0; k < 8; k++) { double mx = r.gauss(), my = r.gauss(); x[18 + 2 * k] = mx; x[19 + 2 * k] = my; x[2 + 2 * k] = c[0] + c[1] * mx + c[2] * my + noise * r.gauss(); x[3 + 2 * k] = c[3] + c[4] * mx + c[5] * my + noise * r.gauss(); }
        int n = (int) x[1]; double sx = 0, sy = 0, xx = 0, yy = 0, xy = 0;
        for (int k = 0; k < n; k++) { sx += x[18 + 2 * k]; sy += x[19 + 2 * k]; }
        for (int k = 0; k < n; k++) { double a = x[18 + 2 * k] - sx / n, b = x[19 + 2 * k] - sy / n; xx += a * a; yy += b * b; xy += a * b; }
        if (x[0] != 0 ? xx + yy > 0.2 : (n < 3 || xx * yy - xy * xy > 0.05 * (xx + yy) * (xx + yy))) break;
    }
}
FND(fitxy, "P31", 4096, ins(integer(0, 1), integer(1, 8)) + n_of(32, comp()), post_samples, outs(ex()) + n_of(6, rl()),
    GArr<D, 16> e(i + 2); GArr<D, 16> m(i + 18); P<L::FitCoeffs> w; int s = (int) L::fitxy(i[0] != 0, (int) i[1], (const D(*)[2]) e.v, (const D(*)[2]) m.v, w.v); o[0] = s; for (int q = 0; q < 6; q++) o[1 + q] = s == 0 ? w.v[q] : (D) 0;)
static void post_pxy(Rng& r, double* x) { double y[34]; y[0] = 0; y[1] = 8; post_samples(r, y); for (int k = 0; k < 32; k++) x[1 + k] = y[2 + k]; post_fit6(r, x + 33); }
FND(pxy, "P31", 64, ins(integer(0, 8)) + n_of(32, comp()) + n_of(6, comp()), post_pxy, n_of(19, rl()),
    GArr<D, 16> e(i + 1); GArr<D, 16> m(i + 17); FC(w, i + 33); PArr<D, 16> p; P<D> a[3]; int n = (int) i[0];
    L::pxy(n, (const D(*)[2]) e.v, (const D(*)[2]) m.v, w.v, (D(*)[2]) p.v, a[0].v, a[1].v, a[2].v);
    for (int q = 0; q < 16; q++) o[q] = q < 2 * n ? p.v[q] : (D) 0; for (int q = 0; q < 3; q++) o[16 + q] = a[q].v;)
static void post_sys(Rng& r, double* x) { int n = (int) x[0]; for (int k = 0; k < 30; k++) x[1 + k] = r.gauss(); if (r.coin(0.2)) for (int k = 0; k < n; k++) x[1 + k * n + k] = 0; if (r.coin(0.05) && n > 1) for (int k = 0; k < n; k++) x[1 + k] = x[1 + n + k]; }
#define SYS(f, T) int n = (int) i[0]; T m[25]; T y[5]; int w[5]; for (int q = 0; q < n * n; q++) m[q] = (T) i[1 + q]; for (int q = 0; q < n; q++) y[q] = (T) i[26 + q]; ROUT(T, d); bool s = L::f(n, m, y, d.v, w); \
    for (int q = 0; q < 32; q++) o[q] = 0; o[31] = s; o[30] = d.v; if (!s) { for (int q = 0; q < n * n; q++) o[q] = m[q]; for (int q = 0; q < n; q++) o[25 + q] = y[q]; }
FND(dmat, "P35", 0, ins(integer(1, 5)) + n_of(30, comp()), post_sys, n_of(32, rl()), SYS(dmat, D))
FNF(smat, "", "P35", 0, ins(integer(1, 5)) + n_of(30, comp()), post_sys, n_of(32, rl()), SYS(smat, F))
FND(svd, "", 0, n_of(12, comp()), nullptr, n_of(25, rl()), D a[20] = {0}; for (int q = 0; q < 4; q++) for (int z = 0; z < 3; z++) a[q * 4 + z] = (D) i[q * 3 + z]; D w[3]; D v[16] = {0}; D ws[3]; o[24] = L::svd(4, 3, 5, 4, a, w, v, ws);
    for (int q = 0; q < 4; q++) for (int z = 0; z < 3; z++) o[q * 3 + z] = a[q * 4 + z]; for (int q = 0; q < 3; q++) o[12 + q] = w[q]; for (int q = 0; q < 3; q++) for (int z = 0; z < 3; z++) o[15 + q * 3 + z] = v[q * 4 + z];)
static void post_svd(Rng& r, double* x) { for (int k = 16; k < 19; k++) x[k] = r.coin(0.15) ? 0.0 : r.logu(0.1, 10); }
FND(svdsol, "P30", 64, n_of(28, comp()), post_svd, n_of(3, rl()), GArr<D, 4> b(i); GArr<D, 12> u(i + 4); GArr<D, 3> w(i + 16); GArr<D, 9> v(i + 19); D ws[3]; PArr<D, 3> x; L::svdsol(4, 3, 4, 3, b, u, w, v, ws, x); x.put(o);)
static void post_cov(Rng& r, double* x) { for (int k = 0; k < 3; k++) x[k] = r.coin(0.15) ? 0.0 : r.logu(0.1, 10); }
FND(svdcov, "P30", 64, n_of(12, comp()), post_cov, n_of(9, rl()), GArr<D, 3> w(i); GArr<D, 9> v(i + 3); D ws[3]; PArr<D, 9> c; L::svdcov(3, 3, 3, w, v, ws, c); c.put(o);)
static void post_combn(Rng& r, double* x) { int ns = (int) r.irange(1, 5), nc = (int) r.irange(ns, 9); x[0] = ns; x[1] = nc; std::vector<int> v; for (int k = 1; k <= nc; k++) v.push_back(k); for (int k = 0; k < ns; k++) { int j = (int) r.irange(k, nc - 1); std::swap(v[k], v[j]); } std::sort(v.begin(), v.begin() + ns); for (int k = 0; k < 5; k++) x[2 + k] = k < ns ? v[k] : 0; if (r.coin(0.1)) x[2] = 0; }
FND(combn, "", 64, n_of(7, integer(0, 9)), post_combn, n_of(6, ex()), int l[5]; for (int q = 0; q < 5; q++) l[q] = (int) i[2 + q]; o[5] = (int) L::combn((int) i[0], (int) i[1], l); for (int q = 0; q < 5; q++) o[q] = l[q];)
static void post_permut(Rng& r, double* x) { int n = (int) r.irange(1, 6); x[0] = n; for (int k = 0; k < 6; k++) x[1 + k] = (double) r.irange(0, k); if (r.coin(0.2)) x[1] = -1; }
FND(permut, "", 64, n_of(7, integer(-1, 9)), post_permut, n_of(13, ex()), int st[6]; int od[6] = {0}; for (int q = 0; q < 6; q++) st[q] = (int) i[1 + q]; o[12] = (int) L::permut((int) i[0], st, od); for (int q = 0; q < 6; q++) { o[q] = st[q]; o[6 + q] = od[q]; })
static const char* const OBSIDS[] = {"AAT", "LPO4.2", "KECK1", "AAO", "SUBARU", "ZZZ", "", "MMT", "ESO3.6", "UKIRT"};
inline double hash_c(const char* s) { uint64_t h = hash_str(s); return (double) (h >> 14); }
FND(obs, "P26", 64, ins(integer(-1, 90), integer(0, 9)), nullptr, outs(ex(), ex(), ex(), rl(), rl(), rl()), L::Observatory b; b.o_id = "?"; b.o_name = "?"; b.o_long = b.o_lat = b.o_height = 0; bool s = L::obs((int) i[0], OBSIDS[(int) i[1]], b);
    o[0] = s; o[1] = hash_c(b.o_id); o[2] = hash_c(b.o_name); o[3] = b.o_long; o[4] = b.o_lat; o[5] = b.o_height;)
