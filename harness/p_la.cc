// Independent oracles for P29 (simultaneous equations), P30 (singular value decomposition), P31 (plate models).
#include "geo.h"
#include "slalib.h"
#include <memory>
using namespace sla;
typedef std::vector<LD> LV;
// long double Gaussian elimination with complete pivoting: inverse and determinant; false when singular
static bool ld_inv(int n, LV a, LV& inv, LD& det) {
    inv.assign(n * n, 0); for (int k = 0; k < n; k++) inv[k * n + k] = 1; det = 1; std::vector<int> cp(n); for (int k = 0; k < n; k++) cp[k] = k;
    for (int k = 0; k < n; k++) {
        int pi = k, pj = k; LD m = -1; for (int i = k; i < n; i++) for (int j = k; j < n; j++) if (std::fabs(a[i * n + j]) > m) { m = std::fabs(a[i * n + j]); pi = i; pj = j; }
        if (!(m > 0)) { det = 0; return false; }
        if (pi != k) { det = -det; for (int j = 0; j < n; j++) { std::swap(a[k * n + j], a[pi * n + j]); std::swap(inv[k * n + j], inv[pi * n + j]); } }
        if (pj != k) { det = -det; for (int i = 0; i < n; i++) std::swap(a[i * n + k], a[i * n + pj]); std::swap(cp[k], cp[pj]); }
        LD p = a[k * n + k]; det *= p; for (int j = 0; j < n; j++) { a[k * n + j] /= p; inv[k * n + j] /= p; }
        for (int i = 0; i < n; i++) if (i != k) { LD f = a[i * n + k]; if (f != 0) for (int j = 0; j < n; j++) { a[i * n + j] -= f * a[k * n + j]; inv[i * n + j] -= f * inv[k * n + j]; } }
    }
    LV t(n * n); for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) t[cp[k] * n + j] = inv[k * n + j]; inv = t; return true;
}
// smallest running determinant / pivot met by elimination with partial pivoting (the library's documented notion of singularity is absolute)
static LD worst_pivot(int n, LV a, LD& growth) {
    LD d = 1, w = 1e300L, m0 = 0, m1 = 0; for (LD v : a) m0 = std::max(m0, std::fabs(v)); m1 = m0;
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (std::fabs(a[i * n + k]) > std::fabs(a[p * n + k])) p = i; if (p != k) for (int j = 0; j < n; j++) std::swap(a[k * n + j], a[p * n + j]);
        LD v = a[k * n + k]; d *= v; w = std::min({w, std::fabs(v), std::fabs(d)}); if (v == 0) return 0;
        for (int i = 0; i < n; i++) if (i != k) { LD f = a[i * n + k] / v; for (int j = 0; j < n; j++) a[i * n + j] -= f * a[k * n + j]; } for (LD x : a) m1 = std::max(m1, std::fabs(x));
    }
    growth = m1 / m0; return w;
}
template <class T> static void run_mat(Rng& r, long idx, bool (*f)(int, T*, T*, T&, int*), const char* fn) {
    const LD eps = sizeof(T) == 8 ? EPSD : EPSF; int n = (int) (r.coin(0.01) ? r.irange(15, sizeof(T) == 8 ? 45 : 16) : r.coin(0.1) ? r.irange(9, 14) : r.irange(1, 8)); if (n > 14) covered("large-order"); std::vector<T> a(n * n), b(n), w(n * n), x(n); std::vector<int> ws(n, -7777); int mode = (int) (idx % 9);
    for (auto& v : a) v = (T) r.gauss();
    switch (mode) {
        case 1: for (auto& v : a) v = (T) r.irange(-9, 9); break;
        case 2: { std::vector<int> p(n); for (int k = 0; k < n; k++) p[k] = k; for (int k = n - 1; k > 0; k--) std::swap(p[k], p[r.irange(0, k)]); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * n + j] = j == p[i] ? (T) (r.sign() * r.logu(0.2, 5)) : (T) 0; break; }
        case 3: for (int i = 0; i < n; i++) { T s = (T) r.logu(0.05, 20); for (int j = 0; j < n; j++) a[i * n + j] *= s; } break;
        case 4: for (int k = 0; k < n; k++) a[k * n + k] = 0; break;
        case 5: for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[i * n + j] = 0; break;
        case 6: for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[j * n + i] = a[i * n + j]; break;
        case 7: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * n + j] = (T) ((r.coin(0.3) ? r.gauss() : 0) + (i == (j + 1) % n)); break;
        case 8: for (int i = 0; i < n; i++) a[i * n] = (T) r.logu(1e-4, 1e-2); break;
    }
    if (r.coin()) { double s = std::pow(10.0, r.uni(r.coin(0.3) ? -30.0 : -17.0, sizeof(T) == 4 ? 17.0 : 40.0) / n); for (auto& v : a) v = (T) (v * s); }   // other units
    if (r.coin(0.2)) { double q = r.logu(1e-6, 1e6); int c = (int) r.irange(0, n - 1); for (int i = 0; i < n; i++) a[i * n + c] = (T) (a[i * n + c] * q); }
    for (auto& v : b) v = (T) (r.coin(0.1) ? 0 : r.gauss() * r.logu(0.1, 10));
    in_clear(); in_add(n); for (int k = 0; k < std::min(n * n, 36); k++) in_add(a[k]); LV A(a.begin(), a.end()), I; LD det = 0, growth = 1; 
    LD wp = worst_pivot(n, A, growth); bool ok = ld_inv(n, A, I, det); bool below = !ok || wp < 1e-18L; if (below && !ok) { covered("near-threshold-skipped"); return; }
    LD na = 0, ni = 0; for (int i = 0; i < n; i++) { LD s = 0, t = 0; for (int j = 0; j < n; j++) { s += std::fabs(A[i * n + j]); t += std::fabs(I[i * n + j]); } na = std::max(na, s); ni = std::max(ni, t); } LD cond = na * ni; if (cond * eps > 1e-3L) { covered("ill-conditioned-skipped"); return; }
    w = a; x = b; T d; poison(d); bool sing = f(n, w.data(), x.data(), d, ws.data()); if (sing) chk(d == 0, fn, "singular-zero-determinant", "%.9g", (double) d);
    if (below) covered(sing ? "below-threshold-reported" : "below-threshold-solved"); else chk(!sing, fn, "nonsingular-accepted", "n=%d det %.6Lg", n, det);
    if (sing) return;
    LD K = 6.0L * n * growth * eps, xm = 0; LV X(n, 0); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) X[i] += I[i * n + j] * b[j]; xm = std::max(xm, std::fabs(X[i])); } LD bm = 0; for (T v : b) bm = std::max(bm, std::fabs((LD) v));
    for (int i = 0; i < n; i++) near_(x[i], X[i], K * cond * (xm + ni * bm * 1e-3L) + 1e-40L, fn, "solution"); for (int k = 0; k < n * n; k++) near_(w[k], I[k], K * cond * ni + 1e-40L, fn, "inverse");
    near_(d, det, K * cond * std::fabs(det) + 1e-40L, fn, "determinant"); covered(growth > 3 ? "pivot-growth" : "benign-growth"); seen(fn, mix(hd((double) d), (uint64_t) n));
}
template <class T> static void run_sing(Rng& r, long idx, bool (*f)(int, T*, T*, T&, int*), const char* fn) {
    // exactly singular and exactly representable through elimination: zero row/column, or a 3x3 block of {-1,0,1} entries with zero determinant
    int n = (int) (r.coin(0.03) ? r.irange(8, 30) : r.irange(1, 7)); std::vector<T> a(n * n), b(n); std::vector<int> ws(n); for (auto& v : a) v = (T) r.gauss(); for (auto& v : b) v = (T) r.gauss();
    int mode = (int) (idx % 4); if (n < 3 && mode == 2) mode = 0;
    if (mode == 0) { int k = (int) r.irange(0, n - 1); for (int j = 0; j < n; j++) a[k * n + j] = 0; } else if (mode == 1) { int k = (int) r.irange(0, n - 1); for (int j = 0; j < n; j++) a[j * n + k] = 0; }
    else if (mode == 2) { std::vector<int> p(n), q(n); for (int k = 0; k < n; k++) p[k] = q[k] = k; for (int k = n - 1; k > 0; k--) { std::swap(p[k], p[r.irange(0, k)]); std::swap(q[k], q[r.irange(0, k)]); } int m[9]; do for (auto& v : m) v = (int) r.irange(-1, 1); while (m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]) != 0); for (auto& v : a) v = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { T v = (i < 3 && j < 3) ? (T) m[i * 3 + j] : (T) (i == j); a[p[i] * n + q[j]] = v; } }
    else for (auto& v : a) v = 0;
    in_clear(); in_add(n); for (int k = 0; k < std::min(n * n, 49); k++) in_add(a[k]); T d; poison(d); bool sing = f(n, a.data(), b.data(), d, ws.data()); chk(sing, fn, "singular-reported", "n=%d mode=%d det %.9g", n, mode, (double) d); chk(d == 0, fn, "singular-zero-determinant", "%.9g", (double) d); covered(mode == 0 ? "zero-row" : mode == 1 ? "zero-column" : mode == 2 ? "dependent-block" : "zero-matrix"); seen(fn, hd((double) a[0]));
}
GROUP("P29", solve_double, 60000, 3000000) { run_mat<double>(r, idx, dmat, "dmat"); }
GROUP("P29", solve_single, 60000, 3000000) { run_mat<float>(r, idx, smat, "smat"); }
GROUP("P29", singular_double, 40000, 2000000) { run_sing<double>(r, idx, dmat, "dmat"); }
GROUP("P29", singular_single, 40000, 2000000) { run_sing<float>(r, idx, smat, "smat"); }
// ---------------------------------------------------------------- P30
GROUP("P30", decomposition, 40000, 2000000) {
    bool big = r.coin(0.01); if (big) covered("large-matrix"); int n = (int) (big ? r.irange(9, 40) : r.irange(1, 8)), m = n + (int) (r.coin(0.3) ? 0 : big ? r.irange(0, 60) : r.irange(0, 7)), mp = m + (int) (r.coin() ? 0 : r.irange(1, 4)), np = n + (int) (r.coin() ? 0 : r.irange(1, 4)); const double SENT = -7.25e11; std::vector<double> a((size_t) mp * np, SENT), A, w(np, SENT), v((size_t) np * np, SENT), ws(np, SENT); int mode = (int) (idx % 9); std::vector<double> d(m * n); for (auto& x : d) x = r.gauss(); double sc = r.coin(0.7) ? 1.0 : r.logu(1e-6, 1e6);
    if (mode == 1 && n > 1) { int c = (int) r.irange(1, n - 1); for (int i = 0; i < m; i++) d[i * n + c] = d[i * n] * 2 - (c > 1 ? d[i * n + 1] : 0); } if (mode == 2) { int c = (int) r.irange(0, n - 1); for (int i = 0; i < m; i++) d[i * n + c] = 0; } if (mode == 3) for (auto& x : d) x = (double) r.irange(-3, 3); if (mode == 4) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) d[i * n + j] = i == j; } if (mode == 5) { for (int j = 0; j < n; j++) { double s = r.logu(1e-5, 1e3); for (int i = 0; i < m; i++) d[i * n + j] *= s; } } if (mode == 6) for (auto& x : d) if (r.coin(0.6)) x = 0; if (mode == 7 && r.coin(0.3)) for (auto& x : d) x = 0; if (mode == 8) { int q = (int) r.irange(0, m - 1); for (int j = 0; j < n; j++) d[q * n + j] = 0; }
    for (auto& x : d) x *= sc; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i * np + j] = d[i * n + j]; A = a; in_clear(); in_add(m); in_add(n); in_add(mp); in_add(np); for (int k = 0; k < std::min(m * n, 40); k++) in_add(d[k]);
    int st = svd(m, n, mp, np, a.data(), w.data(), v.data(), ws.data()); chk(st >= 0 && st < n, "svd", "status-valid", "status %d", st);
    if (st != 0) {   // documented as a chance property of the matrix: a slightly displaced matrix has to converge
        int good = 0; for (int t = 0; t < 3; t++) { std::vector<double> a2 = A, w2(np), v2((size_t) np * np), s2(np); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a2[i * np + j] += 1e-4 * sc * r.gauss(); good += svd(m, n, mp, np, a2.data(), w2.data(), v2.data(), s2.data()) == 0; }
        chk(good >= 2, "svd", "convergence-is-the-rule", "status %d", st); covered("not-converged"); return;
    }
    LD nf = 0, wm = 0; for (double x : d) nf += (LD) x * x; nf = std::sqrt(nf); for (int j = 0; j < n; j++) { chk(w[j] >= 0, "svd", "singular-values-non-negative", "%.17g", w[j]); wm = std::max(wm, (LD) w[j]); }
    LD K = 6.0L * (m + n) * EPSD; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { LD s = 0; for (int k = 0; k < n; k++) s += (LD) a[i * np + k] * w[k] * v[j * np + k]; near_(s, d[i * n + j], K * nf + 1e-290L, "svd", "factors-reproduce-matrix"); }
    for (int p = 0; p < n; p++) for (int q = 0; q <= p; q++) { LD s = 0; for (int k = 0; k < n; k++) s += (LD) v[k * np + p] * v[k * np + q]; near_(s, p == q, K, "svd", "right-factor-orthonormal"); s = 0; for (int k = 0; k < m; k++) s += (LD) a[k * np + p] * a[k * np + q]; if (w[p] > 1e-9L * wm && w[q] > 1e-9L * wm) near_(s, p == q, K, "svd", "left-factor-orthonormal"); }
    LD fw = 0; for (int j = 0; j < n; j++) fw += (LD) w[j] * w[j]; near_(std::sqrt(fw), nf, K * nf + 1e-290L, "svd", "singular-values-norm");
    for (int i = 0; i < mp; i++) for (int j = 0; j < np; j++) if (i >= m || j >= n) chk(a[i * np + j] == SENT, "svd", "outside-logical-matrix-untouched", "a[%d][%d]", i, j); for (int i = 0; i < np; i++) for (int j = 0; j < np; j++) if (i >= n || j >= n) chk(v[i * np + j] == SENT, "svd", "outside-logical-v-untouched", "v[%d][%d]", i, j); for (int j = n; j < np; j++) chk(w[j] == SENT, "svd", "outside-logical-w-untouched", "w[%d]", j);
    // least squares with optional zeroing of small singular values
    std::vector<double> b(m), x(n, SENT), U = a, W(w.begin(), w.begin() + n); for (auto& q : b) q = r.gauss() * sc; bool zeroed = false; for (int j = 0; j < n; j++) if (W[j] < 1e-9L * wm || (n > 1 && r.coin(0.1))) { W[j] = 0; zeroed = true; }
    std::vector<double> ws2(n, SENT); const std::vector<double> V = v, B = b; svdsol(m, n, mp, np, b.data(), U.data(), W.data(), v.data(), ws2.data(), x.data()); chk(V == v && B == b && U == a, "svdsol", "inputs-untouched");
    LD wmin = 1e300L; for (int j = 0; j < n; j++) if (W[j] > 0) wmin = std::min(wmin, (LD) W[j]); LD nb = 0; for (double q : b) nb += (LD) q * q; nb = std::sqrt(nb);
    for (int k = 0; k < n; k++) { LD s = 0; for (int l = 0; l < n; l++) if (W[l] != 0) { LD t = 0; for (int i = 0; i < m; i++) t += (LD) a[i * np + l] * b[i]; s += (LD) v[k * np + l] * t / W[l]; } near_(x[k], s, wmin < 1e299L ? K * nb / wmin + 1e-290L : 0, "svdsol", "documented-expression"); }
    if (!zeroed && wm < 1e6L * wmin) for (int j = 0; j < n; j++) { LD g = 0; for (int i = 0; i < m; i++) { LD e = -b[i]; for (int q = 0; q < n; q++) e += (LD) d[i * n + q] * x[q]; g += d[i * n + j] * e; } near_(g, 0, 4 * K * nf * nb * wm / wmin + 1e-290L, "svdsol", "least-squares-normal-equations"); covered("full-rank-least-squares"); }
    // covariance
    int nc = n + (int) r.irange(0, 2); std::vector<double> cv((size_t) nc * nc, SENT), ws3(n, SENT); svdcov(n, np, nc, W.data(), v.data(), ws3.data(), cv.data()); chk(V == v, "svdcov", "inputs-untouched"); for (int i = 0; i < nc; i++) for (int j = 0; j < nc; j++) { if (i >= n || j >= n) { chk(cv[i * nc + j] == SENT, "svdcov", "outside-logical-untouched", "[%d][%d]", i, j); continue; } LD s = 0; for (int k = 0; k < n; k++) if (W[k] != 0) s += (LD) v[i * np + k] * v[j * np + k] / ((LD) W[k] * W[k]); near_(cv[i * nc + j], s, wmin < 1e299L ? 8 * n * EPSD / (wmin * wmin) + 1e-290L : 0, "svdcov", "documented-expression"); near_(cv[i * nc + j], cv[j * nc + i], 0, "svdcov", "symmetric"); }
    if (!zeroed && wm < 1e3L * wmin) { LV N(n * n, 0), I; LD dt; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < m; k++) N[i * n + j] += (LD) d[k * n + i] * d[k * n + j]; if (ld_inv(n, N, I, dt)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) near_(cv[i * nc + j], I[i * n + j], 8 * K * wm / wmin / (wmin * wmin), "svdcov", "inverse-of-normal-matrix"); }
    covered(mp > m || np > n ? "padded" : "tight"); covered(zeroed ? "rank-deficient-or-zeroed" : "full-rank"); seen("svd", mix(hd(w[0]), (uint64_t) (m * 16 + n)));
}
GROUP("P30", wrong_shape, 500, 20000) { int n = (int) r.irange(2, 6), m = (int) r.irange(1, n - 1); std::vector<double> a(m * n), w(n, 3), v(n * n, 4), ws(n); for (auto& x : a) x = r.gauss(); auto b = a; in(m, n); int st = svd(m, n, m, n, a.data(), w.data(), v.data(), ws.data()); chk(st == -1, "svd", "wrong-shape-reported", "status %d", st); chk(a == b, "svd", "wrong-shape-leaves-matrix"); seen("svd", hd(a[0])); }
// ---------------------------------------------------------------- P31
GROUP("P31", plate_fits, 60000, 3000000) {
    int n = (int) (r.coin(0.01) ? r.irange(13, 700) : r.coin(0.2) ? r.irange(0, 3) : r.irange(3, 12)); if (n > 12) covered("many-samples"); bool sbr = idx & 1; std::vector<double> e(2 * n + 2), m(2 * n + 2); double c[6]; for (auto& q : c) q = r.gauss(); bool refl = r.coin(); if (sbr && r.coin(0.7)) { double s = r.logu(0.1, 10), t = r.uni(-PI, PI); c[1] = s * std::cos(t); c[2] = -s * std::sin(t); c[4] = s * std::sin(t); c[5] = s * std::cos(t); if (refl) { c[1] = -c[1]; c[2] = -c[2]; } } double noise = r.coin(0.3) ? 0 : r.logu(1e-6, 0.5); double ox = r.coin() ? 0 : r.gauss() * 3, se = r.coin() ? 1 : r.logu(1e-7, 1e7), sm = r.coin() ? 1 : r.logu(1e-7, 1e7);
    for (int k = 0; k < n; k++) { double x = r.gauss() + ox, y = r.gauss(); if (r.coin(0.1)) { x = std::round(x); y = std::round(y); } m[2 * k] = x; m[2 * k + 1] = y; e[2 * k] = c[0] + c[1] * x + c[2] * y + noise * r.gauss(); e[2 * k + 1] = c[3] + c[4] * x + c[5] * y + noise * r.gauss(); for (int q = 0; q < 2; q++) { m[2 * k + q] *= sm; e[2 * k + q] *= se; } }
    in_clear(); in_add(sbr); in_add(n); for (int k = 0; k < std::min(2 * n, 24); k++) { in_add(m[k]); in_add(e[k]); } FitCoeffs f; const double S = -3.5e9; for (int k = 0; k < 6; k++) f[k] = S; auto e0 = e, m0 = m;
    std::unique_ptr<double[][2]> pe(new double[n ? n : 1][2]), pm_(new double[n ? n : 1][2]); for (int k = 0; k < n; k++) for (int q = 0; q < 2; q++) { pe[k][q] = e[2 * k + q]; pm_[k][q] = m[2 * k + q]; }
    FITStatus st = fitxy(sbr, n, pe.get(), pm_.get(), f); bool inok = true; for (int k = 0; k < n; k++) for (int q = 0; q < 2; q++) if (pe[k][q] != e0[2 * k + q] || pm_[k][q] != m0[2 * k + q]) inok = false; chk(inok, "fitxy", "samples-untouched");
    if (n < (sbr ? 2 : 3)) { chk(st == FIT_INSUFFICIENT, "fitxy", "too-few-samples-reported", "n=%d sbr=%d status %d", n, sbr, (int) st); bool un = true; for (int k = 0; k < 6; k++) un = un && f[k] == S; chk(un, "fitxy", "too-few-samples-model-untouched"); covered("too-few"); return; }
    LD sx = 0, sy = 0, xx = 0, yy = 0, xy = 0, ex = 0, ey = 0, mag = 0, mage = 0; for (int k = 0; k < n; k++) { sx += m[2 * k]; sy += m[2 * k + 1]; ex += e[2 * k]; ey += e[2 * k + 1]; mag = std::max({mag, std::fabs((LD) m[2 * k]), std::fabs((LD) m[2 * k + 1])}); mage = std::max({mage, std::fabs((LD) e[2 * k]), std::fabs((LD) e[2 * k + 1])}); } sx /= n; sy /= n; ex /= n; ey /= n; for (int k = 0; k < n; k++) { LD a = m[2 * k] - sx, b = m[2 * k + 1] - sy; xx += a * a; yy += b * b; xy += a * b; } LD tr = xx + yy, dt = xx * yy - xy * xy;
    if (sbr ? tr < 1e-2L * sm * sm : dt < 1e-3L * tr * tr || tr < 1e-2L * sm * sm) { covered("poorly-conditioned-skipped"); return; }
    if ((sbr ? n * tr * n * tr : n * dt) > 1e-17L) chk(st == FIT_OK, "fitxy", "well-posed-fit-succeeds", "status %d", (int) st); else covered("below-solver-threshold"); if (st != FIT_OK) return; for (int k = 0; k < 6; k++) if (k % 3) mage += std::fabs((LD) f[k]) * mag; LD amp = (1 + (sx * sx + sy * sy) * n / tr), cnd = amp * amp * (sbr ? 1 : tr * tr / dt) * 60, tol = (sm != 1 ? 2048 : 64) * cnd * EPSD * mage, tl = tol * std::sqrt(n / tr), to = tol + tl * mag;
    LD bx[6]; LD rss = 0, mod = 0; for (int k = 0; k < n; k++) { LD px = f[0] + (LD) f[1] * m[2 * k] + (LD) f[2] * m[2 * k + 1] - e[2 * k], py = f[3] + (LD) f[4] * m[2 * k] + (LD) f[5] * m[2 * k + 1] - e[2 * k + 1]; mod += px * px + py * py; }
    if (!sbr) { LD ux = 0, uy = 0, vx = 0, vy = 0; for (int k = 0; k < n; k++) { LD a = m[2 * k] - sx, b = m[2 * k + 1] - sy, p = e[2 * k] - ex, q = e[2 * k + 1] - ey; ux += a * p; uy += b * p; vx += a * q; vy += b * q; } bx[1] = (ux * yy - uy * xy) / dt; bx[2] = (uy * xx - ux * xy) / dt; bx[0] = ex - bx[1] * sx - bx[2] * sy; bx[4] = (vx * yy - vy * xy) / dt; bx[5] = (vy * xx - vx * xy) / dt; bx[3] = ey - bx[4] * sx - bx[5] * sy; for (int k = 0; k < 6; k++) near_(f[k], bx[k], (k % 3 ? tl : to), "fitxy", "least-squares-six-coefficients"); covered("six-coefficient"); }
    else {
        LD best[2], co[2][6]; for (int h = 0; h < 2; h++) { LD sg = h ? -1 : 1, A = 0, B = 0; for (int k = 0; k < n; k++) { LD a = m[2 * k] - sx, b = m[2 * k + 1] - sy, p = sg * (e[2 * k] - ex), q = e[2 * k + 1] - ey; A += a * p + b * q; B += a * q - b * p; } A /= tr; B /= tr; LD a0 = sg * ex - A * sx + B * sy, d0 = ey - B * sx - A * sy; LD t[6] = {sg * a0, sg * A, -sg * B, d0, B, A}; best[h] = 0; for (int k = 0; k < 6; k++) co[h][k] = t[k]; for (int k = 0; k < n; k++) { LD px = t[0] + t[1] * m[2 * k] + t[2] * m[2 * k + 1] - e[2 * k], py = t[3] + t[4] * m[2 * k] + t[5] * m[2 * k + 1] - e[2 * k + 1]; best[h] += px * px + py * py; } }
        rss = std::min(best[0], best[1]); LD st_ = 4 * EPSD * (std::fabs((LD) f[1]) + std::fabs((LD) f[2])); auto eq_ = [&](LD u, LD v) { return std::fabs(u - v) <= st_; }; chk((eq_(f[1], f[5]) && eq_(f[2], -f[4])) || (eq_(f[1], -f[5]) && eq_(f[2], f[4])), "fitxy", "solid-body-structure", "%.17g %.17g %.17g %.17g", f[1], f[2], f[4], f[5]); near_(std::sqrt(mod), std::sqrt(rss), tol * 4 + 1e-6L * std::sqrt(rss), "fitxy", "solid-body-residual-optimal");
        int h = best[0] <= best[1] ? 0 : 1; if (n > 2 && std::fabs(std::sqrt(best[0]) - std::sqrt(best[1])) > 1e-4L * (std::sqrt(best[0]) + std::sqrt(best[1])) + 100 * tol) { for (int k = 0; k < 6; k++) near_(f[k], co[h][k], (k % 3 ? tl : to), "fitxy", "solid-body-coefficients-best-handedness"); covered(h ? "reflected" : "not-reflected"); } if (n == 2) { for (int k = 0; k < 6; k++) near_(f[k], co[0][k], (k % 3 ? tl : to), "fitxy", "two-samples-take-unreflected-model"); covered("two-samples"); }
    }
    // prediction with residuals
    std::unique_ptr<double[][2]> pr(new double[n][2]); double xr, yr, rr; poison(xr); poison(yr); poison(rr); pxy(n, pe.get(), pm_.get(), f, pr.get(), xr, yr, rr); LD qx = 0, qy = 0; for (int k = 0; k < n; k++) { LD px = f[0] + (LD) f[1] * m[2 * k] + (LD) f[2] * m[2 * k + 1], py = f[3] + (LD) f[4] * m[2 * k] + (LD) f[5] * m[2 * k + 1]; LD pt = 8 * EPSD * (std::fabs((LD) f[0]) + std::fabs((LD) f[3]) + (std::fabs((LD) f[1]) + std::fabs((LD) f[2]) + std::fabs((LD) f[4]) + std::fabs((LD) f[5])) * mag); near_(pr[k][0], px, pt, "pxy", "prediction-x"); near_(pr[k][1], py, pt, "pxy", "prediction-y"); double tx, ty; xy2xy(m[2 * k], m[2 * k + 1], f, tx, ty); near_(tx, pr[k][0], pt, "pxy", "same-as-model-application"); near_(ty, pr[k][1], pt, "pxy", "same-as-model-application"); qx += (e[2 * k] - (LD) pr[k][0]) * (e[2 * k] - (LD) pr[k][0]); qy += (e[2 * k + 1] - (LD) pr[k][1]) * (e[2 * k + 1] - (LD) pr[k][1]); }
    near_(xr, std::sqrt(qx / n), 1e-14L * (xr + mage * 1e-2L), "pxy", "rms-x"); near_(yr, std::sqrt(qy / n), 1e-14L * (yr + mage * 1e-2L), "pxy", "rms-y"); near_(rr, std::sqrt((qx + qy) / n), 1e-14L * (rr + mage * 1e-2L), "pxy", "rms-total");
    seen("fitxy", hd(f[1])); seen("pxy", hd(rr));
}
GROUP("P31", degenerate_fits, 20000, 800000) {
    // geometrically degenerate, with sums exact in floating point: coincident samples, or all on a coordinate axis / vertical or horizontal line through small integers
    bool sbr = idx & 1; int n = (int) r.irange(sbr ? 2 : 3, 8); std::unique_ptr<double[][2]> e(new double[n][2]), m(new double[n][2]); int mode = sbr ? 0 : (int) (idx / 2 % 3); if (mode == 0) n = 1 << (int) r.irange(sbr ? 1 : 2, 3); e.reset(new double[n][2]); m.reset(new double[n][2]); double ds = r.coin() ? 1 : std::ldexp(1.0, (int) r.irange(-24, 24)), cx = ds * (double) (r.coin(0.3) ? 0 : r.sign() * (1 << r.irange(0, 4))), cy = ds * (double) (r.coin(0.3) ? 0 : r.sign() * (1 << r.irange(0, 4)));
    for (int k = 0; k < n; k++) { e[k][0] = (double) r.irange(-8, 8); e[k][1] = (double) r.irange(-8, 8); m[k][0] = mode == 0 ? cx : mode == 1 ? 0 : ds * (double) r.irange(-4, 4); m[k][1] = mode == 0 ? cy : mode == 2 ? 0 : ds * (double) r.irange(-4, 4); }
    in_clear(); in_add(sbr); in_add(n); in_add(mode); for (int k = 0; k < n; k++) { in_add(m[k][0]); in_add(m[k][1]); } FitCoeffs f; for (int k = 0; k < 6; k++) f[k] = 1; FITStatus st = fitxy(sbr, n, e.get(), m.get(), f); chk(st == FIT_NONE, "fitxy", "degenerate-samples-reported", "sbr=%d n=%d mode=%d status %d", sbr, n, mode, (int) st); covered(mode == 0 ? "coincident" : "collinear"); seen("fitxy", mix((uint64_t) n, hd(cx)));
}
GROUP("P31", model_tools, 80000, 4000000) {
    FitCoeffs f, g, h; for (int k = 0; k < 6; k++) f[k] = r.gauss() * (r.coin(0.2) ? r.logu(1e-3, 1e3) : 1); if (r.coin(0.1)) f[2] = f[4] = 0; if (r.coin(0.05)) { f[1] = f[5] = 0; } if (r.coin()) { double ms = r.logu(1e-9, 1e7); for (int k = 0; k < 6; k++) f[k] *= ms; } in(f[0], f[1], f[2], f[3], f[4], f[5]); FitCoeffs f0 = f; LD det = (LD) f[1] * f[5] - (LD) f[2] * f[4], sc = std::hypot((LD) f[1], (LD) f[2]) * std::hypot((LD) f[4], (LD) f[5]);
    bool same = true; for (int k = 0; k < 6; k++) g[k] = 77;
    if (std::fabs(det) > 1e-3L * sc && det != 0) {
        bool ok = invf(f, g); chk(ok, "invf", "inverse-found"); for (int k = 0; k < 6; k++) same = same && f[k] == f0[k]; chk(same, "invf", "model-untouched"); LD off = std::fabs((LD) f[0]) + std::fabs((LD) f[3]), mx = 0, ig = 0; for (int k : {1, 2, 4, 5}) { mx = std::max(mx, std::fabs((LD) f[k])); ig = std::max(ig, std::fabs((LD) g[k])); } LD cn = mx * ig;
        double x = r.gauss() * 10, y = r.gauss() * 10, u, v, p, q; poison(u); poison(v); xy2xy(x, y, f, u, v); xy2xy(u, v, g, p, q); near_(u, f[0] + (LD) f[1] * x + (LD) f[2] * y, 1e-15L * (off + mx * 30 * 2), "xy2xy", "linear-model-x"); near_(v, f[3] + (LD) f[4] * x + (LD) f[5] * y, 1e-15L * (off + mx * 30 * 2), "xy2xy", "linear-model-y"); LD tol = 64 * EPSD * (1 + cn) * (30 + off * ig) * (sc / std::fabs(det)); near_(p, x, tol, "invf", "inverse-undoes-model-x"); near_(q, y, tol, "invf", "inverse-undoes-model-y"); bool ok2 = invf(g, h); chk(ok2, "invf", "double-inverse-found"); for (int k = 0; k < 6; k++) near_(h[k], f[k], 64 * EPSD * (1 + cn) * (1 + cn) * ((k % 3) ? mx : off + mx) * (sc / std::fabs(det)), "invf", "double-inverse-restores-model");
        double xz, yz, xs, ys, pp, orr; poison(xz); poison(yz); poison(xs); poison(ys); poison(pp); poison(orr); dcmpf(f, xz, yz, xs, ys, pp, orr); auto rec = [&](LD X, LD Y, LD& a, LD& b) { X += xz; Y += yz; X *= xs; Y *= ys; LD c = std::cos((LD) pp / 2), s = std::sin((LD) pp / 2), X3 = c * X + s * Y, Y3 = s * X + c * Y, co = std::cos((LD) orr), so = std::sin((LD) orr); a = co * X3 + so * Y3; b = -so * X3 + co * Y3; };
        LD a0, b0, a1, b1, a2, b2; rec(0, 0, a0, b0); rec(1, 0, a1, b1); rec(0, 1, a2, b2); LD t1 = 64 * EPSD * (mx + 0), t0 = 64 * EPSD * (off + off * cn * sc / std::fabs(det) * 4); near_(a0, f[0], t0, "dcmpf", "recomposes-a"); near_(b0, f[3], t0, "dcmpf", "recomposes-d"); near_(a1 - a0, f[1], t1 + t0, "dcmpf", "recomposes-b"); near_(b1 - b0, f[4], t1 + t0, "dcmpf", "recomposes-e"); near_(a2 - a0, f[2], t1 + t0, "dcmpf", "recomposes-c"); near_(b2 - b0, f[5], t1 + t0, "dcmpf", "recomposes-f"); chk(ys >= 0, "dcmpf", "y-scale-non-negative", "%.17g", ys); chk((xs >= 0) == (det >= 0), "dcmpf", "x-scale-sign-gives-handedness", "%.17g det %.6Lg", xs, det); chk(std::fabs(pp) <= PI && std::fabs(orr) <= PI, "dcmpf", "angles-in-range", "%.17g %.17g", pp, orr); seen("dcmpf", hd(pp)); covered(det < 0 ? "left-handed" : "right-handed");
    }
    // exactly singular models have no inverse
    FitCoeffs s; double k2 = r.pick({0.0, 1.0, 2.0, -0.5, 4.0}); s[0] = r.gauss(); s[3] = r.gauss(); s[1] = (double) r.irange(-8, 8); s[2] = (double) r.irange(-8, 8); if (r.coin()) { double p2 = std::ldexp(1.0, (int) r.irange(-30, 20)); s[1] *= p2; s[2] *= p2; } s[4] = k2 * s[1]; s[5] = k2 * s[2]; if (r.coin()) { std::swap(s[1], s[4]); std::swap(s[2], s[5]); } in(s[0], s[1], s[2], s[3], s[4], s[5]); FitCoeffs w; for (int k = 0; k < 6; k++) w[k] = 17.5 + k; chk(!invf(s, w), "invf", "singular-model-reported"); for (int k = 0; k < 6; k++) chk(w[k] == 17.5 + k, "invf", "output-untouched-without-inverse", "%d", k); seen("invf", hd(g[1]));
    // empty prediction
    double xr = 5, yr = 5, rr = 5; int neg = -(int) r.irange(0, 3); double d1[1][2] = {{1, 2}}, d2[1][2] = {{3, 4}}, d3[1][2] = {{5, 6}}; in(neg); pxy(neg, d1, d2, f, d3, xr, yr, rr); chk(xr == 0 && yr == 0 && rr == 0 && d3[0][0] == 5 && d3[0][1] == 6, "pxy", "no-samples-zero-rms", "%.9g %.9g %.9g", xr, yr, rr);
}
