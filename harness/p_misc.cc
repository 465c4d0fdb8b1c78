// Independent oracles for P26 (observatories), P32 (radial distortion), P33 (combinatorial generators), P34 (random deviates).
#include "geo.h"
#include "slalib.h"
#include "slaref.h"
#include <numeric>
#include <set>
#include "child.h"
using namespace sla;
extern "C" void vp_progress();
// ---------------------------------------------------------------- P26
static bool is_fail(const Observatory& o) { return o.o_id && o.o_name && !std::strcmp(o.o_id, "?") && !std::strcmp(o.o_name, "?") && o.o_long == 0 && o.o_lat == 0 && o.o_height == 0; }
static Observatory dirty() { Observatory o; o.o_id = "dirty"; o.o_name = "dirty too"; o.o_long = 9; o.o_lat = 8; o.o_height = 7; return o; }
static bool same_obs(const Observatory& a, const Observatory& b) { return !std::strcmp(a.o_id, b.o_id) && !std::strcmp(a.o_name, b.o_name) && a.o_long == b.o_long && a.o_lat == b.o_lat && a.o_height == b.o_height; }
static std::vector<Observatory> all_obs() { std::vector<Observatory> v; for (int n = 0; n < 100000; n++) { Observatory o = dirty(); if (!obs(n, nullptr, o)) break; v.push_back(o); } return v; }
GROUP("P26", catalogue, 8, 64) {
    auto v = all_obs(); in((double) v.size()); chk(v.size() < 100000, "obs", "list-ends"); std::set<std::string> ids, names;
    for (size_t k = 0; k < v.size(); k++) {
        const Observatory& o = v[k]; in((double) k, o.o_long, o.o_lat, o.o_height); note("station %s", o.o_id ? o.o_id : "(null)");
        if (!chk(o.o_id && o.o_name && o.o_id[0] && o.o_name[0] && std::strcmp(o.o_id, "dirty") && std::strcmp(o.o_name, "dirty too"), "obs", "strings-returned")) continue;
        chk(ids.insert(o.o_id).second, "obs", "identifiers-unique", "%s", o.o_id); chk(names.insert(o.o_name).second || !std::strcmp(o.o_name, "?"), "obs", "each-station-once", "%s", o.o_name);
        chk(std::fabs(o.o_lat) <= PI / 2 && std::fabs(o.o_long) <= TWOPI && o.o_height > -500 && o.o_height < 9000, "obs", "values-physical", "%.9g %.9g %.9g", o.o_long, o.o_lat, o.o_height);
        Observatory p = dirty(); bool ok = obs(-1 - (int) r.irange(0, 5), o.o_id, p); chk(ok && same_obs(p, o), "obs", "by-identifier-equals-by-number", "%s gave %s", o.o_id, p.o_id);
        p = dirty(); ok = obs((int) k, r.coin() ? "VLT4" : "NO-SUCH-PLACE", p); chk(ok && same_obs(p, o), "obs", "identifier-ignored-when-numbered", "%s", o.o_id);
        for (size_t l = 0; l <= std::strlen(o.o_id); l++) {
            std::string pre(o.o_id, l); size_t w = 0; while (w < v.size() && std::strncmp(v[w].o_id, pre.c_str(), l)) w++;
            p = dirty(); ok = obs(-1, pre.c_str(), p); chk(ok && w < v.size() && same_obs(p, v[w]), "obs", "prefix-finds-first", "'%s' gave %s", pre.c_str(), p.o_id); seen("obs", hash_str(pre.c_str()));
        }
        std::string ext = std::string(o.o_id) + (char) r.irange('A', 'Z'); bool known = false; for (auto& q : v) if (!std::strncmp(q.o_id, ext.c_str(), ext.size())) known = true;
        p = dirty(); ok = obs(-1, ext.c_str(), p); if (!known) chk(!ok && is_fail(p), "obs", "overlong-identifier-fails", "'%s' gave %s", ext.c_str(), p.o_id);
    }
    // the published stations, each as published
    for (int n = 0;; n++) {
        slaref::Observatory q; if (!slaref::obs(n, nullptr, q)) break; Observatory p = dirty(); in(n); note("published station %s", q.o_id);
        bool ok = obs(-1, q.o_id, p); if (!chk(ok && !std::strcmp(p.o_id, q.o_id), "obs", "published-station-present", "%s", q.o_id)) continue;
        chk(!std::strcmp(p.o_name, q.o_name), "obs", "published-name", "%s: %s", q.o_id, p.o_name); near_(p.o_long, q.o_long, 1e-12L, "obs", "published-longitude"); near_(p.o_lat, q.o_lat, 1e-12L, "obs", "published-latitude"); near_(p.o_height, q.o_height, 1e-9L, "obs", "published-height");
    }
}
GROUP("P26", misses, 40000, 2000000) {
    static const std::vector<Observatory> v = all_obs(); Observatory p = dirty(); int N = (int) v.size();
    if (idx % 4 == 0) { int n = r.coin(0.5) ? N + (int) r.irange(0, 300) : r.coin() ? INT_MAX - (int) r.irange(0, 3) : (int) (r.next() & 0x7fffffff); in(n); if (n < N) return; bool ok = obs(n, r.coin() ? nullptr : "AAT", p); chk(!ok && is_fail(p), "obs", "number-past-end-fails"); }
    else if (idx % 4 == 1) { in(0); int n = r.coin() ? -1 : INT_MIN + (int) r.irange(0, 3); bool ok = obs(n, nullptr, p); chk(!ok && is_fail(p), "obs", "no-identifier-fails"); }
    else {
        std::string s; if (r.coin()) { s = v[r.irange(0, N - 1)].o_id; int e = (int) r.irange(1, 2); while (e--) { size_t k = r.next() % (s.size() + 1); int m = (int) r.irange(0, 2); char c = (char) (r.coin(0.8) ? r.irange('A', 'Z') : r.irange('0', '9')); if (m == 0) s.insert(k, 1, c); else if (k < s.size() && m == 1) s[k] = c; else if (k < s.size()) s.erase(k, 1); } }
        else { int l = (int) r.irange(0, 14); for (int k = 0; k < l; k++) s += (char) r.irange('0', 'Z'); }
        if (r.coin(0.15)) for (char& c : s) if (c >= 'A' && c <= 'Z' && r.coin(0.7)) c = (char) (c + 32);
        if (r.coin(0.05)) s = (r.coin() ? " " : "") + s + (r.coin() ? " " : "");
        size_t w = 0; while (w < v.size() && std::strncmp(v[w].o_id, s.c_str(), s.size())) w++; in(0); note("id '%s'", s.c_str());
        bool ok = obs(-(int) r.irange(1, 1000), s.c_str(), p); if (w < v.size()) chk(ok && same_obs(p, v[w]), "obs", "prefix-finds-first", "'%s' gave %s", s.c_str(), p.o_id); else chk(!ok && is_fail(p), "obs", "unknown-identifier-fails", "'%s' gave %s", s.c_str(), p.o_id);
        covered(w < v.size() ? "matching-string" : "unknown-string"); seen("obs", hash_str(s.c_str()));
    }
}
// ---------------------------------------------------------------- P32
GROUP("P32", apply, 60000, 3000000) {
    double c = r.coin(0.1) ? r.pick({0.0, -0.3333, 147.069, 178.585, 21.20, 13.32}) : r.sign() * (r.coin(0.6) ? r.logu(1e-6, 500) : r.logu(1e-14, 1e8)), x = r.coin(0.05) ? 0 : r.sign() * (r.coin(0.8) ? r.logu(1e-6, 3) : r.logu(1e-9, 1e5)), y = r.coin(0.05) ? 0 : r.sign() * (r.coin(0.8) ? r.logu(1e-6, 3) : r.logu(1e-9, 1e5)); in(c, x, y);
    double u = x, v = y; pcd(c, u, v); LD f = 1 + (LD) c * ((LD) x * x + (LD) y * y), m = 1 + std::fabs((LD) c) * ((LD) x * x + (LD) y * y); near_(u, x * f, 8 * EPSD * m * std::fabs(x), "pcd", "scaled-x"); near_(v, y * f, 8 * EPSD * m * std::fabs(y), "pcd", "scaled-y");
    if (c == 0) chk(u == x && v == y, "pcd", "no-distortion"); seen("pcd", hd(u)); covered(c > 0 ? "pincushion" : c < 0 ? "barrel" : "none");
    double a = x, b = y; unpcd(0.0, a, b); chk(a == x && b == y, "unpcd", "no-distortion"); a = b = 0; if (r.coin()) a = -0.0; unpcd(c, a, b); chk(a == 0 && b == 0, "unpcd", "origin-fixed");
}
GROUP("P32", remove, 120000, 6000000) {
    // solve C R^3 + R = RP in extended precision by bracketing and bisection between the turning points, keep all real roots
    double c, t = gen_ang(r), rp; int mode = (int) (idx % 6); c = r.coin(0.1) ? r.pick({-0.3333, 147.069, 178.585, 21.20, 13.32}) : r.sign() * (r.coin(0.6) ? r.logu(1e-5, 500) : r.logu(1e-14, 1e8));
    LD s = 1 / std::sqrt(std::fabs((LD) c)), Rt = s / std::sqrt(3.0L), top = Rt * 2 / 3;   // turning point radius and its distorted value for barrel
    rp = (double) (s * (LD) r.logu(1e-5, 30)); if (c < 0 && mode < 4) rp = (double) (top * (mode == 0 ? (LD) r.uni(0.01, 0.99) : mode == 1 ? 1 - (LD) r.logu(1e-10, 1e-1) : mode == 2 ? 1 + (LD) r.logu(1e-10, 1e-1) : (LD) r.logu(1e-4, 1)));
    double x = rp * std::cos(t), y = rp * std::sin(t), u = x, v = y; in(c, x, y); LD R = std::hypot((LD) x, (LD) y); unpcd(c, u, v);
    auto g = [&](LD q) { return c * q * q * q + q - R; }; std::vector<LD> roots; auto bis = [&](LD a, LD b) { LD fa = g(a), fb = g(b); if (fa == 0) { roots.push_back(a); return; } if (fb == 0) return; if ((fa < 0) == (fb < 0)) return; for (int k = 0; k < 200; k++) { LD m = (a + b) / 2; if (m == a || m == b) break; if ((g(m) < 0) == (fa < 0)) a = m; else b = m; } roots.push_back((a + b) / 2); };
    LD big = 4 * (R + s + std::cbrt(R / std::fabs((LD) c))); if (c > 0) bis(0, big); else { bis(-big, -Rt); bis(-Rt, Rt); bis(Rt, big); }
    if (roots.empty()) { covered("turning-point-skipped"); return; }
    std::sort(roots.begin(), roots.end(), [&](LD a, LD b) { return std::fabs(a - R) < std::fabs(b - R); }); LD best = roots[0]; bool tie = roots.size() > 1 && std::fabs(roots[1] - R) - std::fabs(roots[0] - R) < 1e-6L * s;
    LD got = (u * x + v * y) / R, slope = std::fabs(1 + 3 * c * best * best), tol = 200 * EPSD * ((s + std::fabs(best) + R) + (R + s) / std::max(slope, 1e-8L)); if (slope < 1e-6L) tol += 1e-6L * s;
    near_((LD) u * y - (LD) v * x, 0, 16 * EPSD * (std::fabs((LD) u * y) + std::fabs((LD) v * x)) + 1e-300L, "unpcd", "direction-kept");
    LD d = std::fabs(got - best), d1 = roots.size() > 1 ? std::fabs(got - roots[1]) : 1e300L; if (tie && d1 < d) { d = d1; covered("tie"); }
    near_(d, 0, tol, "unpcd", "nearest-undistorted-position");
    double p = u, q = v; pcd(c, p, q); LD gr = 1 + 3 * std::fabs((LD) c) * best * best; near_(std::hypot(p - (LD) x, q - (LD) y), 0, tol * gr + 64 * EPSD * R, "unpcd", "redistorts-to-input");
    covered(roots.size() == 1 ? (c > 0 ? "pincushion" : "barrel-single-root") : "barrel-three-roots"); if (best < 0) covered("opposite-side-root"); seen("unpcd", hd(u));
}
// ---------------------------------------------------------------- P33
static double choose(int n, int k) { double c = 1; for (int q = 1; q <= k; q++) c = c * (n - k + q) / q; return std::round(c); }
static std::vector<std::pair<int, int>>& comb_sizes() { static std::vector<std::pair<int, int>> v; if (v.empty()) { for (int c = 1; c <= 16; c++) for (int s = 1; s <= c; s++) v.push_back({s, c}); for (int c : {17, 20, 33, 64, 65, 100, 150, 257}) for (int s : {1, 2, c - 1, c}) v.push_back({s, c}); for (int c : {18, 24, 32, 40}) for (int s : {3, c - 3}) v.push_back({s, c}); v.push_back({4, 20}); v.push_back({16, 20}); } return v; }
GROUP("P33", combinations, 400, 4000) {
    auto& sz = comb_sizes(); auto [s, c] = sz[idx % sz.size()]; long total = (long) choose(c, s); in(s, c); std::vector<int> l(s, r.coin() ? 0 : 12345), first(s); l[0] = -(int) r.irange(0, 5); std::iota(first.begin(), first.end(), 1);
    int cycles = total > 5000 ? 1 : 3; std::set<std::vector<int>> got; std::vector<int> last(s); for (int k = 0; k < s; k++) last[k] = c - s + k + 1;
    for (int cy = 0; cy <= cycles; cy++) {
        got.clear(); for (long k = 0; k < total; k++) {
            CPStatus st = combn(s, c, l.data()); vp_progress(); bool expect_more = cy == 0 || k > 0; if (!chk(st == (expect_more ? CPS_OK : CPS_NO_MORE), "combn", "status", "cycle %d step %ld of %ld: %d", cy, k, total, (int) st)) return;
            if (k == 0 && !chk(l == first, "combn", "starts-with-first")) return; bool ok = true; for (int q = 0; q < s; q++) ok = ok && l[q] >= 1 && l[q] <= c && (q == 0 || l[q] > l[q - 1]); if (!chk(ok, "combn", "ascending-from-candidates", "step %ld", k)) return;
            if (!chk(got.insert(l).second, "combn", "each-combination-once", "step %ld of %ld", k, total)) return; if (cy == cycles && k > 3) break;
        }
        if (cy < cycles) { chk((long) got.size() == total, "combn", "all-combinations"); chk(l == last, "combn", "ends-with-last"); }
    }
    covered("combn-full-cycles"); seen("combn", mix(s, c));
}
GROUP("P33", permutations, 80, 400) {
    int n = (int) (idx % (thorough() && idx < 30 ? 9 : 8)) + 1; if (idx == 79) n = 9; long total = 1; for (int k = 2; k <= n; k++) total *= k; in(n); std::vector<int> st(n, 99), od(n, -1), first(n), last(n); st[0] = -(int) r.irange(1, 9); for (int k = 0; k < n; k++) { first[k] = n - k; last[k] = k + 1; }
    std::vector<bool> got(total); int cycles = n <= 7 ? 3 : 1;
    auto rank = [&](const std::vector<int>& o) { long q = 0; for (int a = 0; a < n; a++) { int c = 0; for (int b = a + 1; b < n; b++) c += o[b] < o[a]; q = q * (n - a) + c; } return q; };
    for (int cy = 0; cy <= cycles; cy++) {
        std::fill(got.begin(), got.end(), false); for (long k = 0; k < total; k++) {
            std::fill(od.begin(), od.end(), (int) r.irange(-5, 9)); CPStatus s = permut(n, st.data(), od.data()); vp_progress(); if (!chk(s == (cy == 0 || k > 0 ? CPS_OK : CPS_NO_MORE), "permut", "status", "cycle %d step %ld: %d", cy, k, (int) s)) return;
            if (k == 0 && !chk(od == first, "permut", "starts-with-first")) return; unsigned m = 0; for (int v : od) if (v >= 1 && v <= n) m |= 1u << v; if (!chk(m == (2u << n) - 2, "permut", "is-permutation", "step %ld", k)) return;
            long q = rank(od); if (!chk(!got[q], "permut", "each-permutation-once", "step %ld", k)) return; got[q] = true; if (cy == cycles && k > 3) break;
        }
        if (cy < cycles) { chk(od == last, "permut", "ends-with-last"); chk(std::count(got.begin(), got.end(), true) == total, "permut", "all-permutations"); }
    }
    covered("permut-full-cycles"); seen("permut", n);
}
GROUP("P33", resumption, 20000, 1000000) {
    // any intermediate state continues the same enumeration: shadow successor, several steps, sizes too large to enumerate
    if (idx & 1) {
        int c = (int) r.irange(1, 60), s = (int) r.irange(1, std::min(c, 25)); std::vector<int> v(c), l; std::iota(v.begin(), v.end(), 1); for (int k = 0; k < s; k++) std::swap(v[k], v[r.irange(k, c - 1)]); l.assign(v.begin(), v.begin() + s); std::sort(l.begin(), l.end()); if (r.coin(0.3)) { int t = (int) r.irange(0, s); for (int k = t; k < s; k++) l[k] = c - s + k + 1; if (t) for (int k = t - 1; k >= 0; k--) if (l[k] >= l[k + 1 < s ? k + 1 : k] && k + 1 < s) l[k] = l[k + 1] - 1; if (l[0] < 1) return; }
        if (r.coin(0.1)) { c = (int) r.irange(1000, 2000000000); std::set<int> q; while ((int) q.size() < s) q.insert(r.coin(0.7) ? (int) r.irange(1, c) : r.coin() ? c - (int) r.irange(0, 99) : (int) r.pick({127, 255, 32767, 65535, 16777216}) + (int) r.irange(-2, 2)); l.assign(q.begin(), q.end()); if (l.back() > c) return; covered("combn-many-candidates"); }
        auto m = l; in_clear(); in_add(s); in_add(c); for (int q : l) in_add(q); for (int k = 0; k < 6; k++) { CPStatus a = combn(s, c, l.data()); auto b = slaref::combn(s, c, m.data()); if (!chk((int) a == (int) b && l == m, "combn", "continues-from-any-state", "step %d", k)) break; } seen("combn", l.back() * 1000 + l[0]); covered("combn-resumed");
    } else {
        int n = r.coin(0.05) ? (int) r.irange(31, 300) : (int) r.irange(1, 30); std::vector<int> st(n), od(n, 0); for (int k = 0; k < n; k++) st[k] = (int) r.irange(0, k); if (r.coin(0.3)) { int t = (int) r.irange(0, n); for (int k = 0; k < t; k++) st[k] = k; } auto s2 = st, o2 = od; in_clear(); in_add(n); for (int q : st) in_add(q);
        for (int k = 0; k < 6; k++) { CPStatus a = permut(n, st.data(), od.data()); auto b = slaref::permut(n, s2.data(), o2.data()); if (!chk((int) a == (int) b && st == s2 && od == o2, "permut", "continues-from-any-state", "step %d", k)) break; } seen("permut", od[0] * 1000 + od[n - 1]); covered("permut-resumed");
    }
}
GROUP("P33", invalid_sizes, 4000, 100000) {
    int s = (int) r.irange(-3, 6), c = (int) r.irange(-3, 6); if (r.coin(0.1)) s = r.coin() ? INT_MIN : INT_MAX; if (r.coin(0.1)) c = INT_MIN; in(s, c); if (s < 1 || c < 1 || s > c) { int l[8] = {0, 5, 6, 7, 8, 9, 3, 1}, m[8]; if (r.coin()) l[0] = 2; std::memcpy(m, l, sizeof l); chk(combn(s, c, l) == CPS_INVALID_ARG, "combn", "invalid-size-reported"); chk(!std::memcmp(l, m, sizeof l), "combn", "invalid-size-untouched"); covered("combn-invalid"); }
    if (s < 1) { int a[4] = {-1, 5, 6, 7}, b[4] = {4, 3, 2, 1}; chk(permut(s, a, b) == CPS_INVALID_ARG, "permut", "invalid-size-reported"); chk(a[0] == -1 && a[1] == 5 && a[2] == 6 && a[3] == 7 && b[0] == 4 && b[1] == 3 && b[2] == 2 && b[3] == 1, "permut", "invalid-size-untouched"); covered("permut-invalid"); }
}
// ---------------------------------------------------------------- P34: generator state is per process, so histories run in forked children
template <class F> static std::vector<float> in_child(size_t n, F body) { return run_child<float>(n, [&](float* o, int) { body(o); }, "random/gresid", "history-completes"); }
static float gen_seed(Rng& r) { switch (r.irange(0, 7)) { case 0: return 0.0f; case 1: return (float) r.irange(-3, 3); case 2: return (float) (r.sign() * r.logu(1e-30, 1)); case 3: return (float) (r.sign() * r.logu(1, 1e30)); case 4: return (float) (r.sign() * std::pow(10.0, (double) r.irange(-5, 38))); case 5: return r.coin() ? FLT_MAX : -FLT_MAX; case 6: return (float) r.irange(-10000000, 10000000); default: return (float) r.uni(-1e4, 1e4); } }
static double erfinv_cdf(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
GROUP("P34", uniform_histories, 240, 8000) {
    const size_t N = 4096; float seed = gen_seed(r); in(seed); std::vector<float> later(N); for (auto& q : later) q = r.coin(0.3) ? seed : gen_seed(r); std::vector<int> inter(N); for (auto& q : inter) q = (int) r.irange(0, 3); if (idx % 3 == 0) std::fill(inter.begin(), inter.end(), 0);
    auto a = in_child(N, [&](float* o) { for (size_t k = 0; k < N; k++) o[k] = sla::random(seed); }); auto b = in_child(N, [&](float* o) { for (size_t k = 0; k < N; k++) { for (int q = 0; q < inter[k]; q++) gresid(1.0f); o[k] = sla::random(k ? later[k] : seed); } }); if (a.empty() || b.empty()) return;
    chk(a == b, "random", "first-seed-only-and-undisturbed"); bool rng = true; for (float q : a) rng = rng && q >= 0.0f && q < 1.0f; chk(rng, "random", "range");
    // distribution: mean, variance, 64-bin occupancy, lag correlations; limits far beyond chance (about 7 sigma)
    double mu = 0, va = 0; int bins[64] = {0}; for (float q : a) { mu += q; if (q >= 0 && q < 1) bins[(int) (q * 64)]++; } mu /= N; for (float q : a) va += (q - mu) * (q - mu); va /= N; near_(mu, 0.5L, 7 * 0.288675L / std::sqrt((LD) N), "random", "mean"); near_(va, 1.0L / 12, 7 * 0.0745L / std::sqrt((LD) N), "random", "variance");
    double ch = 0; for (int q : bins) ch += (q - N / 64.0) * (q - N / 64.0) / (N / 64.0); near_(ch, 63, 90, "random", "uniform-occupancy"); for (int lag : {1, 2, 3, 5}) { double s = 0; for (size_t k = 0; k + lag < N; k++) s += (a[k] - 0.5) * (a[k + lag] - 0.5); near_(s / (N - lag) * 12, 0, 7 / std::sqrt((LD) N), "random", "serial-correlation"); }
    std::set<float> dis(a.begin(), a.end()); chk(dis.size() > N - 40, "random", "values-distinct", "%zu", dis.size());
    float s2 = gen_seed(r); float x = std::fabs(seed), y = std::fabs(s2); if (x > 100 && x < 1e20f && y > 100 && y < 1e20f) { double mx = x / std::pow(10.0, std::round(std::log10(x + 1))), my = y / std::pow(10.0, std::round(std::log10(y + 1))); if (std::fabs(mx - my) > 1e-4) { auto c = in_child(64, [&](float* o) { for (size_t k = 0; k < 64; k++) o[k] = sla::random(s2); }); if (!c.empty()) chk(!std::equal(c.begin(), c.end(), a.begin()), "random", "different-seeds-differ", "%.9g", s2); covered("different-seeds"); } }
    seen("random", hd(a[0]) ^ hd(a[N - 1])); covered("uniform-history");
}
GROUP("P34", gaussian_histories, 160, 5000) {
    const size_t N = 4096; std::vector<float> sd(N), seeds(N); std::vector<int> inter(N); int mode = (int) (idx % 4); float s0 = (float) r.logu(1e-6, 1e6); for (size_t k = 0; k < N; k++) { sd[k] = mode == 0 ? s0 : mode == 1 ? (float) r.logu(1e-10, 1e10) : mode == 2 ? (r.coin(0.2) ? 0.0f : (float) r.uni(0, 3)) : 1.0f; inter[k] = mode == 3 ? (int) r.irange(0, 3) : 0; seeds[k] = gen_seed(r); } in(mode, s0);
    static std::vector<float> base; if (base.empty()) base = in_child(N, [&](float* o) { for (size_t k = 0; k < N; k++) o[k] = gresid(1.0f); }); auto a = in_child(N, [&](float* o) { for (size_t k = 0; k < N; k++) { for (int q = 0; q < inter[k]; q++) sla::random(seeds[k]); o[k] = gresid(sd[k]); } }); if (base.empty() || a.empty()) { base.clear(); return; }
    size_t bad = N; for (size_t k = 0; k < N; k++) if (!(std::fabs((LD) a[k] - (LD) base[k] * sd[k]) <= 2 * EPSF * std::fabs((LD) base[k] * sd[k]) + 1e-44L)) { bad = k; break; } chk(bad == N, "gresid", "scaled-by-requested-deviation", "deviate %zu: %.9g instead of %.9g x %.9g", bad, bad < N ? a[bad] : 0, bad < N ? base[bad] : 0, bad < N ? sd[bad] : 0); seen("gresid", hd(a[N - 1])); covered("gaussian-history");
}
GROUP("P34", long_runs, 8, 8) {
    // one long history per shard and generator: the library's engine has a period near 2^31, thorough runs go all the way round
    const bool gauss = idx & 1; long n = thorough() ? (idx < 2 ? 2200000000L : 40000000L) : 2000000L; float seed = gen_seed(r); in(gauss, seed); constexpr int B = 64, OUT = 12 + B;
    auto o = in_child(OUT, [&](float* q) {
        double s1 = 0, s2 = 0, s3 = 0, s4 = 0, lag = 0, lag2 = 0, prev = 0, prev2 = 0, mx = -1e30, mn = 1e30; long bad = 0, tail = 0; std::vector<long> bin(B, 0);
        for (long k = 0; k < n; k++) { float v = gauss ? gresid(1.0f) : sla::random(seed); if (!(gauss ? std::isfinite(v) : (v >= 0.0f && v < 1.0f))) { bad++; continue; } double x = gauss ? (double) v : (v - 0.5); s1 += x; s2 += x * x; s3 += x * x * x; s4 += x * x * x * x; lag += x * prev; lag2 += x * prev2; prev2 = prev; prev = x; mx = std::max(mx, (double) v); mn = std::min(mn, (double) v); if (gauss && std::fabs(x) > 3) tail++; if (k < 4000000) { double u = gauss ? erfinv_cdf(x) : (double) v; bin[std::min(B - 1, std::max(0, (int) (u * B)))]++; } }
        double N = (double) n, M = (double) std::min(n, 4000000L); q[0] = (float) bad; q[1] = (float) (s1 / N); q[2] = (float) (s2 / N); q[3] = (float) (s3 / N); q[4] = (float) (s4 / N); q[5] = (float) (lag / N); q[6] = (float) (lag2 / N); q[7] = (float) mn; q[8] = (float) mx; q[9] = (float) (tail / N); for (int b = 0; b < B; b++) q[12 + b] = (float) ((bin[b] - M / B) / std::sqrt(M / B));
    }); if (o.empty()) return; const char* fn = gauss ? "gresid" : "random"; LD N = (LD) n, rt = std::sqrt(N); LD M = (LD) std::min(n, 4000000L);
    chk(o[0] == 0, fn, gauss ? "always-finite" : "always-in-range", "%.0f of %ld deviates", (double) o[0], n); LD v2 = gauss ? 1 : 1.0L / 12; near_(o[1], 0, 7 * std::sqrt(v2) / rt + 1e-7L, fn, "mean-zero"); near_(o[2], v2, 7 * (gauss ? std::sqrt(2.0L) : 0.0745L) / rt + 1e-6L, fn, "variance"); near_(o[3], 0, 7 * (gauss ? std::sqrt(15.0L) : 0.0474L) / rt + 1e-6L, fn, "skewness"); near_(o[4], gauss ? 3.0L : 1 / 80.0L, 7 * (gauss ? std::sqrt(96.0L) : 0.0168L) / rt + 1e-5L, fn, "kurtosis");
    near_(o[5], 0, 7 * v2 / rt + 1e-6L, fn, "lag-one-correlation"); near_(o[6], 0, 7 * v2 / rt + 1e-6L, fn, "lag-two-correlation"); if (gauss) { near_(o[9], 0.0026998L, 7 * 0.052L / rt + 1e-6L, fn, "three-sigma-tail"); chk(o[8] > 4.2 && o[7] < -4.2, fn, "tails-reached", "%.6g %.6g", o[7], o[8]); } else chk(o[7] < 0.0001 && o[8] > 0.9999, fn, "whole-range-reached", "%.9g %.9g", o[7], o[8]);
    LD ch = 0; for (int b = 0; b < B; b++) ch += (LD) o[12 + b] * o[12 + b]; near_(ch, 63, 90, fn, "distribution-shape"); (void) M; seen(fn, hd(o[1])); covered(gauss ? "long-gaussian-run" : "long-uniform-run");
}
// seeds chosen so that the library's engine (minimal standard generator) soon delivers one of its very smallest or largest values: rounding those must not leave the range
static const std::vector<std::pair<int, int>>& extreme_seeds() {
    static std::vector<std::pair<int, int>> v;
    if (v.empty()) {
        const uint64_t m = 2147483647, a = 16807; uint64_t inv = 1, b = a, e = m - 2; while (e) { if (e & 1) inv = inv * b % m; b = b * b % m; e >>= 1; }
        for (int t = 1; t <= 96; t++) for (int side = 0; side < 2; side++) { uint64_t x = side ? m - (uint64_t) t : (uint64_t) t; for (int j = 1; j <= 4000; j++) { x = x * inv % m; if ((x & 1) && x > 1000000 && x < 3000000) { v.push_back({(int) x, j}); break; } } }
    }
    return v;
}
GROUP("P34", extreme_deviates, 400, 4000) {
    const auto& v = extreme_seeds(); auto e = v[idx % v.size()]; float seed = (float) (r.sign() * (e.first - 1)); in(seed, e.second); size_t N = (size_t) e.second + 4;
    auto a = in_child(N, [&](float* o) { for (size_t k = 0; k < N; k++) o[k] = sla::random(seed); }); if (a.empty()) return; float lo = 1, hi = 0; bool ok = true; for (float q : a) { ok = ok && q >= 0.0f && q < 1.0f; lo = std::min(lo, q); hi = std::max(hi, q); }
    chk(ok, "random", "extreme-deviates-in-range", "%.9g..%.9g", lo, hi); seen("random", hd(hi) ^ hd(lo)); if (hi > 1 - 2e-7f || lo < 1e-7f) covered("extreme-deviate");
}
GROUP("P34", long_histories, 12, 120) {
    // histories of hundreds of thousands of deviates: later seeds, the other generator's calls and the number of calls made must not matter, and the sequence never starts over
    const bool gauss = idx & 1; const long n = thorough() ? r.irange(200000, 3000000) : r.irange(100000, 400000); const int C = 128; float seed = gen_seed(r); uint64_t other = r.next(); double pi_ = r.pick({0.0, 0.01, 0.5}); in(gauss, seed, n);
    auto body = [&](bool disturbed) { return in_child(2 * C + 1, [&](float* o) {
        Rng q(other); uint64_t h = 1; std::vector<float> first; long run = 0, restarts = 0;
        for (long k = 0; k < n; k++) {
            float s = seed; if (disturbed && k) s = q.coin(0.5) ? gen_seed(q) : seed;
            if (disturbed && q.coin(pi_)) { if (gauss) sla::random(gen_seed(q)); else gresid((float) q.uni(0, 3)); }
            float v = gauss ? gresid(1.0f) : sla::random(s); h = mix(h, hd(v));
            if (k < 12) first.push_back(v); else { run = v == first[run] ? run + 1 : v == first[0] ? 1 : 0; if (run == 12) { restarts++; run = 0; } }
            if ((k + 1) % (n / C) == 0) { long c = (k + 1) / (n / C) - 1; if (c < C) { o[2 * c] = (float) (h & 0xffffff); o[2 * c + 1] = (float) (h >> 24 & 0xffffff); } }
        }
        o[2 * C] = (float) restarts;
    }); };
    auto a = body(false), b = body(true); if (a.empty() || b.empty()) return; const char* fn = gauss ? "gresid" : "random";
    int bad = -1; for (int k = 0; k < 2 * C; k++) if (a[k] != b[k]) { bad = k / 2; break; }
    chk(bad < 0, fn, "long-history-undisturbed", "streams differ within deviates %ld to %ld", bad * (n / C), (bad + 1) * (n / C)); chk(a[2 * C] == 0, fn, "never-starts-over", "%.0f repetitions of the first twelve deviates in %ld", (double) a[2 * C], n);
    seen(fn, hd(a[0])); covered("long-history");
}
