// Workload generators and the extended-precision shadow comparison.
#include "vp.h"
#include <array>

double jitter(Rng& r, double v) {
    switch (r.irange(0, 9)) {
        case 0: case 1: case 2: return v;
        case 3: return v == 0 ? 1e-20 : std::nextafter(v, 1e300);      // (squares of denormals underflow: not claimed)
        case 4: return v == 0 ? -1e-20 : std::nextafter(v, -1e300);
        case 5: return v + r.sign() * r.logu(1e-16, 1e-12);
        case 6: return v + r.sign() * r.logu(1e-12, 1e-8);
        case 7: return v + r.sign() * r.logu(1e-8, 1e-4);
        case 8: return v + r.sign() * r.logu(1e-4, 1e-1);
        default: return v + r.sign();
    }
}
static double from_dict(Rng& r, const std::vector<double>* d) {
    const std::vector<double>& v = (d && !d->empty() && r.coin(0.8)) ? *d : dict_all();
    if (v.empty()) return 0.0;
    double x = v[r.next() % v.size()];
    if (r.coin(0.2)) x = -x;
    if (r.coin(0.25)) x *= D2R;
    return jitter(r, x);
}
double gen_ang(Rng& r) {
    double p = r.u();
    if (p < 0.40) return r.uni(-PI, PI);
    if (p < 0.60) return r.uni(0, TWOPI);
    if (p < 0.78) { double b = r.irange(-24, 24) * (PI / 12); return r.coin(0.8) ? jitter(r, b) : b; }
    if (p < 0.88) return r.sign() * r.logu(1e-20, 1.0);
    if (p < 0.95) return r.uni(-20, 20);
    return r.sign() * r.logu(10, 1e6);
}
double gen_lat(Rng& r) {
    double p = r.u(), v;
    if (p < 0.45) v = r.uni(-PI / 2, PI / 2);
    else if (p < 0.65) v = std::asin(r.uni(-1, 1));
    else if (p < 0.80) v = r.sign() * (PI / 2 - (r.coin(0.3) ? 0.0 : r.logu(1e-16, 1e-1)));
    else if (p < 0.90) v = r.sign() * (r.coin(0.3) ? 0.0 : r.logu(1e-18, 1e-1));
    else v = jitter(r, r.irange(-6, 6) * (PI / 12));
    return std::min(std::max(v, -PI / 2), PI / 2);
}
double gen_lon(Rng& r) { double v = std::fmod(gen_ang(r), TWOPI); if (v < 0) v += TWOPI; return v; }
double gen_real(Rng& r, double lo, double hi, const std::vector<double>* d) {
    for (int t = 0; t < 20; t++) {
        double p = r.u(), v;
        if (p < 0.50) v = r.uni(lo, hi);
        else if (p < 0.56) v = lo;
        else if (p < 0.62) v = hi;
        else if (p < 0.68) v = jitter(r, r.coin() ? lo : hi);
        else if (p < 0.76) v = r.sign() * r.logu(1e-12, 1.0) * std::max(std::fabs(lo), std::fabs(hi));
        else if (p < 0.80) v = r.coin() ? 0.0 : jitter(r, 0.0);
        else if (p < 0.86) v = std::round(r.uni(lo, hi));
        else v = from_dict(r, d);
        if (std::fabs(v) < 1e-250) v = 0.0;
        if (v >= lo && v <= hi) return v;
    }
    return r.uni(lo, hi);
}
double gen_mjd(Rng& r, double lo, double hi, const std::vector<double>* d) {
    for (int t = 0; t < 20; t++) {
        double p = r.u(), v;
        if (p < 0.35) v = r.uni(lo, hi);
        else if (p < 0.60) v = r.uni(15020, 88069);          // 1900-2100
        else if (p < 0.70) v = r.uni(51544.5 - 100, 51544.5 + 100);
        else if (p < 0.76) v = std::floor(r.uni(lo, hi)) + r.pick({0.0, 0.5, 0.25, 0.75});
        else if (p < 0.80) v = jitter(r, r.pick({51544.5, 15019.5, 33282.0, 40587.0, 0.0}));
        else if (p < 0.84) v = jitter(r, r.coin() ? lo : hi);
        else v = from_dict(r, d);
        if (v >= lo && v <= hi) return v;
    }
    return r.uni(lo, hi);
}
void gen_unit(Rng& r, double* v) {
    double n;
    do {
        int m = (int) r.irange(0, 9);
        if (m < 6) for (int k = 0; k < 3; k++) v[k] = r.gauss();
        else if (m < 8) { double a = gen_ang(r), b = gen_lat(r); v[0] = std::cos(a) * std::cos(b); v[1] = std::sin(a) * std::cos(b); v[2] = std::sin(b); }
        else if (m == 8) for (int k = 0; k < 3; k++) v[k] = (double) r.irange(-1, 1);
        else { for (int k = 0; k < 3; k++) v[k] = r.sign() * r.logu(1e-9, 1); }
        n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
    } while (!(n > 1e-12));
    for (int k = 0; k < 3; k++) v[k] /= n;
}
void gen_vec(Rng& r, double* v, double smin, double smax) {
    if (r.coin(0.03)) { v[0] = v[1] = v[2] = 0.0; if (r.coin()) v[r.irange(0, 2)] = r.sign() * r.logu(smin, smax); return; }
    gen_unit(r, v);
    double s = r.coin(0.3) ? 1.0 : r.logu(smin, smax);
    for (int k = 0; k < 3; k++) v[k] *= s;
}
void gen_rot(Rng& r, double* m) {
    double ax[3]; gen_unit(r, ax);
    double phi = r.coin(0.15) ? r.logu(1e-12, 1e-2) : r.coin(0.1) ? PI - r.logu(1e-10, 1e-2) : r.uni(-PI, PI);
    double c = std::cos(phi), s = std::sin(phi), w = 1 - c;
    double x = ax[0], y = ax[1], z = ax[2];
    double q[9] = {x * x * w + c, x * y * w + z * s, x * z * w - y * s, x * y * w - z * s, y * y * w + c, y * z * w + x * s,
        x * z * w + y * s, y * z * w - x * s, z * z * w + c};
    std::memcpy(m, q, sizeof q);
}
void gen_inputs(Rng& r, const Fn& f, double* x) {
    const std::vector<double>* d = &dict(f.name);
    for (size_t k = 0; k < f.in.size(); k++) {
        const In& s = f.in[k]; double v = 0;
        switch (s.kind) {
            case 'a': v = r.coin(0.06) ? from_dict(r, d) : gen_ang(r); break;
            case 'l': v = r.coin(0.06) ? from_dict(r, d) : gen_lat(r); if (std::fabs(v) > PI / 2) v = gen_lat(r); break;
            case 'r': v = gen_real(r, s.lo, s.hi, d); break;
            case 'L': v = r.sign() * r.logu(s.lo, s.hi); if (r.coin(0.05)) v = 0;
                else if (r.coin(0.05)) { double q = (double) r.irange(1, 9) * std::pow(10.0, std::floor(std::log10(std::fabs(v)))); if (q >= s.lo && q <= s.hi) v = q * r.sign(); } break;
            case 'm': v = gen_mjd(r, s.lo, s.hi, d); break;
            case 'i': v = std::round(r.coin(0.15) ? std::min(std::max(from_dict(r, d), s.lo), s.hi) : r.coin(0.1) ? (r.coin() ? s.lo : s.hi) : r.uni(s.lo - 0.49, s.hi + 0.49));
                if (v < s.lo) v = s.lo; if (v > s.hi) v = s.hi; break;
            case 'c': v = r.coin(0.08) ? (double) r.irange(-2, 2) : r.coin(0.05) ? from_dict(r, d) : r.gauss() * (r.coin(0.5) ? 1.0 : r.logu(1e-4, 1e3));
                if (v < s.lo || v > s.hi || std::isnan(v)) v = r.gauss(); break;
        }
        x[k] = v;
    }
    // people type round numbers, and the same number twice
    size_t ni = f.in.size(); auto inside = [&](size_t k, double v) { char c = f.in[k].kind; return c == 'a' || c == 'c' || (c == 'l' ? std::fabs(v) <= PI / 2 : c == 'L' ? v == 0 || (std::fabs(v) >= f.in[k].lo && std::fabs(v) <= f.in[k].hi) : v >= f.in[k].lo && v <= f.in[k].hi); };
    if (ni && r.coin(0.05)) { size_t k = r.next() % ni; double q = std::pow(10.0, (double) r.irange(0, 3)), v = f.in[k].kind == 'a' || f.in[k].kind == 'l' ? (r.coin() ? std::round(x[k] / D2R) * D2R : std::round(x[k] * q) / q) : std::round(x[k] * q) / q; if (f.in[k].kind != 'i' && f.in[k].kind != 'm' && inside(k, v)) x[k] = v; }
    if (ni > 1 && r.coin(0.04)) { size_t k = r.next() % ni, j = r.next() % ni; double v = r.coin(0.7) ? x[k] : -x[k]; if (j != k && f.in[j].kind == f.in[k].kind && f.in[j].kind != 'i' && inside(j, v)) x[j] = v; }
    if (f.post) f.post(r, x);
    if (f.cls == 'f' && f.in.size() > 1) for (size_t k = 0; k < f.in.size(); k++) if (f.in[k].kind == 'a' && std::fabs(x[k]) > 1e3) x[k] = std::fmod(x[k], 1e3);
    // squares of much smaller single-precision values underflow
    if (f.cls == 'f') for (size_t k = 0; k < f.in.size(); k++) x[k] = std::fabs(x[k]) < 1e-16 ? 0.0 : (double) (float) x[k];
}

void gen_extreme(Rng& r, const Fn& f, double* x) {
    gen_inputs(r, f, x);
    const double tiny = f.cls == 'f' ? 1e-38 : 1e-300, big = f.cls == 'f' ? 1e15 : 1e75;
    double keep[MAXIO]; std::memcpy(keep, x, sizeof keep);
    for (size_t k = 0; k < f.in.size(); k++) {
        if (r.coin(0.4)) continue;
        const In& s = f.in[k]; double v = x[k];
        switch (s.kind) {
            case 'a': v = r.pick({0.0, -0.0, tiny, -tiny, PI, -PI, TWOPI, -TWOPI, PI / 2, -PI / 2, 1e9, -1e9, 1e15, -1e15, 1e3 * PI, 5e-324, 0.75 * TWOPI}); break;
            case 'l': v = r.pick({0.0, -0.0, tiny, -tiny, PI / 2, -PI / 2, std::nextafter(PI / 2, 0.0), 5e-324}); break;
            case 'r': case 'm': v = r.pick({s.lo, s.hi, std::nextafter(s.lo, s.hi), std::nextafter(s.hi, s.lo), 0.0, -0.0, tiny, -tiny, 5e-324, (s.lo + s.hi) / 2}); if (v < s.lo || v > s.hi) v = x[k]; break;
            case 'L': v = r.sign() * r.pick({s.lo, s.hi, 0.0, tiny}); break;
            case 'i': v = r.coin() ? s.lo : s.hi; break;
            case 'c': v = r.sign() * r.pick({0.0, 1.0, tiny, 5e-324, big, std::sqrt(tiny), 1e5}); break;
        }
        x[k] = v;
    }
    if (f.post) { if (r.coin(0.7)) f.post(r, x); else std::memcpy(x, keep, sizeof keep); }
    if (f.cls == 'f') for (size_t k = 0; k < f.in.size(); k++) x[k] = (double) (float) x[k];
}
static LD odiff(const Fn& f, size_t k, const LD* a, const LD* ref) {
    switch (f.out[k].kind) {
        case 'a': return adiff(a[k], ref[k]);
        case 'p': return adiff(a[k], ref[k]) * std::fabs(std::cos(ref[k + 1]));
        default: return std::fabs(a[k] - ref[k]);
    }
}
void cond_var(Rng& r, const Fn& f, const double* x, const LD* r0, LD* var, bool* unstable, double eps) {
    size_t ni = f.in.size(), no = f.out.size();
    LD xp[MAXIO], rp[MAXIO], far[MAXIO];
    for (size_t k = 0; k < no; k++) { var[k] = 0; far[k] = 0; unstable[k] = false; }
    int near_n = ni == 1 ? 2 : ni == 2 ? 8 : 14, far_n = ni == 1 ? 2 : 4;
    bool has_exact = false; for (auto& q : f.out) if (q.kind == 'e') has_exact = true;
    int abs_n = has_exact ? (eps > 1e-10 ? 40 : 16) : 0;      // absolute nudges decide only whether a discrete outcome is on a boundary
    for (int m = 0; m < near_n + far_n + abs_n; m++) {
        bool isfar = m >= near_n, isabs = m >= near_n + far_n;
        LD mag = isfar ? 64.0L : m < 4 ? 2.0L : 4.0L;
        for (size_t k = 0; k < ni; k++) {
            xp[k] = x[k];
            if (f.in[k].kind != 'i') {
                LD d = ((m < 2 || ni == 1) ? (m & 1 ? 1 : -1) : r.sign()) * mag * eps;
                xp[k] = x[k] * (1.0L + d);
                if (isfar && x[k] == 0.0) xp[k] = d;
                if (isabs) xp[k] = x[k] + r.uni(-2, 2) * 512 * eps * std::max(1.0, std::fabs(x[k])) * (m % 3 == 0 ? 1 : m % 3 == 1 ? 0.1 : 0.01);
            }
        }
        f.ref(xp, rp);
        for (size_t k = 0; k < no; k++) {
            if (f.out[k].kind == 'e') { if (rp[k] != r0[k]) unstable[k] = true; continue; }
            if (isabs) continue;
            LD d = odiff(f, k, rp, r0);
            if (std::isnan(d)) { unstable[k] = true; continue; }
            if (isfar) { if (d > far[k]) far[k] = d; } else if (d > var[k]) var[k] = d;
        }
    }
    // an output that moves far more than proportionally under a slightly larger nudge sits on a branch boundary
    for (size_t k = 0; k < no; k++)
        if (f.out[k].kind != 'e' && far[k] > 400 * (var[k] + 64 * eps * (std::fabs(r0[k]) + f.out[k].scale))) unstable[k] = true;
    if (f.out.size() > 1) for (size_t k = 0; k < no; k++)
        if (f.out[k].kind == 'e' && unstable[k]) { for (size_t j = 0; j < no; j++) if (f.out[j].kind != 'e') unstable[j] = true; }
}
struct Calib { const char* fn; int out; double k, c; };
static const Calib g_calib[] = {
#include "calib.inc"
    {nullptr, 0, 0, 0}};
static bool calib(const Fn& f, int k, double& kk, double& cc) {
    for (const Calib* p = g_calib; p->fn; p++) if (p->out == k && !std::strcmp(p->fn, f.name)) { kk = p->k; cc = p->c; return true; }
    return false;
}
bool g_calibrating = false;
static std::map<std::string, std::vector<std::array<float, 3>>> g_cal;
void calib_report() {
    for (auto& f : fns()) for (size_t k = 0; k < f.out.size(); k++) {
        auto it = g_cal.find(std::string(f.name) + "/" + std::to_string(k));
        if (it == g_cal.end() || it->second.empty()) continue;
        double bk = 0, bc = 0, best = 1e300, bm = 0;
        for (double c : {0.01, 0.1, 1.0, 4.0, 16.0, 64.0}) {
            double kk = 6;
            for (auto& s : it->second) { double e = s[0] - c / 30 * s[2]; if (e > 0 && s[1] > 0) kk = std::max(kk, (e / s[1] < 1e5 ? 30 : 10) * e / s[1]); }
            std::vector<double> t; for (auto& s : it->second) t.push_back(kk * s[1] + c * s[2]);
            std::nth_element(t.begin(), t.begin() + t.size() / 2, t.end());
            double med = t[t.size() / 2];
            if (med < best * 0.999) { best = med; bk = kk; bc = c; bm = med; }
        }
        printf("    {\"%s\", %d, %.3g, %.3g},   // median tolerance %.2g, %zu observations\n", f.name, (int) k, bk, bc, bm, it->second.size());
    }
}
// Cartesian to spherical at the origin: the velocity stands in for the position, so that the two angular rates are differences of equal products
static bool zero_rate_cancels(const Fn& f, const double* x, size_t k) {
    if ((k != 3 && k != 4) || (std::strcmp(f.name, "dc62s") && std::strcmp(f.name, "cc62s"))) return false;
    double r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]; return f.cls == 'f' ? (float) r2 == 0 : r2 == 0;
}
void shadow_check(Rng& r, const Fn& f, const double* x) {
    if (f.k <= 0) return;
    size_t ni = f.in.size(), no = f.out.size();
    double o[MAXIO] = {0}; LD xl[MAXIO], r0[MAXIO] = {0}, ol[MAXIO], var[MAXIO]; bool uns[MAXIO];
    in_clear(); for (size_t k = 0; k < ni; k++) { in_add(x[k]); xl[k] = x[k]; }
    note("%s", f.name);
    g_input_modified = false;
    f.sut(x, o);
    chk(!g_input_modified, f.name, "read-only-input-unmodified");
    f.ref(xl, r0);
    double eps = f.cls == 'f' ? EPSF : EPSD;
    cond_var(r, f, x, r0, var, uns, eps);
    uint64_t h = 0;
    LD extra[MAXIO]; LD run = 0;        // 'S' outputs carry an absolute noise scale for the outputs after them
    for (size_t k = 0; k < no; k++) { if (f.out[k].kind == 'S') run = std::fabs(r0[k]); extra[k] = run; }
    for (size_t k = 0; k < no; k++) { ol[k] = o[k]; h = mix(h, hd(o[k])); }
    for (size_t k = 0; k < no; k++) {
        char w[32]; snprintf(w, sizeof w, "shadow-out%d", (int) k);
        if (f.out[k].kind == 'S') continue;
        if (f.out[k].kind == 'e') {
            if (!uns[k]) chk(o[k] == (double) r0[k], f.name, w, "got %.17g, shadow %.17g", o[k], (double) r0[k]);
            continue;
        }
        if (!std::isfinite((double) r0[k])) { covered("shadow-nonfinite"); continue; }
        if (zero_rate_cancels(f, x, k)) { near_(o[k], r0[k], 64 * eps, f.name, w); continue; }
        if (uns[k]) { covered("shadow-unstable"); continue; }
        LD a = eps * (std::fabs(r0[k]) * (f.out[k].kind == 'r' ? 1 : 0) + f.out[k].scale + extra[k]) + (f.cls == 'f' ? 1e-44L : 1e-300L);
        if (var[k] > (f.cls == 'f' ? 3e3L : 1e6L) * a) { covered("shadow-ill-conditioned"); continue; }
        LD d = odiff(f, k, ol, r0);
        if (g_calibrating && g_verbose && (d > 3e2 * (a + 4 * var[k]) || d > 1e5 * a)) { printf("OUTLIER %s out%d d=%Lg a=%Lg var=%Lg got %.17g ref %.17Lg :", f.name, (int) k, d, a, var[k], o[k], r0[k]); for (size_t q = 0; q < ni; q++) printf(" %.17g", x[q]); puts(""); }
        if (g_calibrating) { g_cal[std::string(f.name) + "/" + std::to_string(k)].push_back({(float) d, (float) a, (float) var[k]}); continue; }
        double kk = f.k, cc = 16; calib(f, (int) k, kk, cc);
        LD tol = kk * a + cc * var[k];
        if (f.out[k].kind == 'a') neara(o[k], r0[k], tol, f.name, w);
        else near_(f.out[k].kind == 'p' ? r0[k] + d : o[k], r0[k], tol, f.name, w);
    }
    seen(f.name, h);
}
// single-precision variant against the double-precision one on the same (single-precision) arguments
void twin_check(Rng& r, const Fn& f, const Fn& g, const double* x) {
    size_t no = f.out.size(); double o[MAXIO] = {0}, q[MAXIO] = {0}; LD xl[MAXIO], r0[MAXIO] = {0}, ol[MAXIO], ql[MAXIO], var[MAXIO]; bool uns[MAXIO];
    in_clear(); for (size_t k = 0; k < f.in.size(); k++) { in_add(x[k]); xl[k] = x[k]; }
    note("%s and %s", f.name, g.name);
    if (f.in.size() != g.in.size() || f.out.size() != g.out.size()) { fprintf(stderr, "twin layouts of %s differ\n", f.name); exit(2); }
    f.sut(x, o); g.sut(x, q); f.ref(xl, r0); cond_var(r, f, x, r0, var, uns, EPSF);
    LD extra[MAXIO]; LD run = 0; uint64_t h = 0;
    for (size_t k = 0; k < no; k++) { if (f.out[k].kind == 'S') run = std::fabs(r0[k]); extra[k] = run; ol[k] = o[k]; ql[k] = q[k]; h = mix(h, hd(o[k])); }
    for (size_t k = 0; k < no; k++) {
        char w[32]; snprintf(w, sizeof w, "twin-out%d", (int) k);
        if (f.out[k].kind == 'S') continue;
        if (uns[k]) { covered("twin-near-decision-boundary"); continue; }
        if (zero_rate_cancels(f, x, k)) { near_(o[k], q[k], 64 * EPSF, f.name, w); continue; }
        if (f.out[k].kind == 'e') { chk(o[k] == q[k], f.name, w, "single %.9g, double %.17g", o[k], q[k]); continue; }
        if (!std::isfinite((float) r0[k]) || !std::isfinite((double) r0[k])) { covered("twin-nonfinite"); continue; }
        LD a = EPSF * (std::fabs(r0[k]) * (f.out[k].kind == 'r' ? 1 : 0) + f.out[k].scale + extra[k]) + 1e-44L;
        if (var[k] > 3e3L * a) { covered("twin-ill-conditioned"); continue; }
        double kk = f.k > 0 ? f.k : 64, cc = 16; calib(f, (int) k, kk, cc); LD tol = (kk * a + cc * var[k]) * 1.01L, d = odiff(f, k, ol, ql);
        if (f.in.size() == 1 && f.out[k].kind == 'a') tol += 2 * EPSF * std::fabs((LD) x[0]);   // range reduction: one turn is itself rounded to single precision
        if (f.out[k].kind == 'a') neara(o[k], q[k], tol, f.name, w); else near_(f.out[k].kind == 'p' ? q[k] + d : o[k], q[k], tol, f.name, w);
    }
    seen(f.name, h); covered("twin-pair-compared");
}
void shadow_burst(Rng& r, const Fn& f) {
    double x[MAXIO], y[MAXIO]; double o1[MAXIO] = {0}, o2[MAXIO] = {0};
    gen_inputs(r, f, x);
    shadow_check(r, f, x);
    f.sut(x, o1);
    // same arguments except one, then the original ones again: hidden state must not leak into results
    gen_inputs(r, f, y);
    if (r.coin(0.7) && !f.post) { size_t q = r.next() % f.in.size(); for (size_t k = 0; k < f.in.size(); k++) if (k != q) y[k] = x[k]; }
    else if (r.coin(0.3) && !f.post) { std::memcpy(y, x, sizeof x); size_t q = r.next() % f.in.size(); if (f.in[q].kind != 'i') { double v = f.cls == 'f' ? (double) std::nextafterf((float) x[q], 0.0f) : std::nextafter(x[q], 0.0); if (f.in[q].kind == 'a' || (v >= f.in[q].lo && v <= f.in[q].hi)) y[q] = v; } }
    shadow_check(r, f, y);
    f.sut(x, o2);
    bool same = true; for (size_t k = 0; k < f.out.size(); k++) if (hd(o1[k]) != hd(o2[k])) same = false;
    in_clear(); for (size_t k = 0; k < f.in.size(); k++) in_add(x[k]);
    chk(same, f.name, "repeat-call-identical", "result changed after an intervening call of the same function");
}
std::vector<const Fn*> fns_of(const char* prop) {
    std::vector<const Fn*> v;
    for (auto& f : fns()) if (std::strstr(f.props, prop) && f.k > 0) v.push_back(&f);
    return v;
}
