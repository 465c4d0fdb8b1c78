// Whole-API monitors: P01 (sanitized extreme workloads), P02 (history independence), P03 (concurrency), P04 (aliasing), P35 (precision twins).
#include "child.h"
#include "slalib.h"
#include <atomic>
#include <cfenv>
#include <clocale>
#include <thread>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
extern "C" void vp_progress();
static void log_in(const Fn& f, const double* x) { in_clear(); note("%s", f.name); for (size_t k = 0; k < f.in.size(); k++) in_add(x[k]); }
static uint64_t out_hash(const Fn& f, const double* o) { uint64_t h = hash_str(f.name); for (size_t k = 0; k < f.out.size(); k++) { double v = o[k]; if (v != v) v = 12345.678; h = mix(h, hd(v)); } return h; }
// ---------------------------------------------------------------- P01: sanitizers judge; the monitor adds termination and finiteness
GROUP("P01", api_domain, 80000, 6000000) {
    auto& F = fns(); const Fn& f = F[idx % F.size()]; double x[MAXIO], o[MAXIO] = {0}; gen_inputs(r, f, x); log_in(f, x); g_poison = idx / (long) F.size() % 2 ? 0xA5 : 0x7F; f.sut(x, o); g_poison = 0xA5;
    chk(true, f.name, "completed-under-sanitizers"); seen(f.name, out_hash(f, o));
}
GROUP("P01", api_extreme, 80000, 6000000) {
    auto& F = fns(); const Fn& f = F[idx % F.size()]; double x[MAXIO], o[MAXIO] = {0}; gen_extreme(r, f, x); log_in(f, x); f.sut(x, o); chk(true, f.name, "completed-under-sanitizers"); seen(f.name, out_hash(f, o)); covered("extreme-values");
}
// ---------------------------------------------------------------- P02
struct Call { const Fn* f; double x[MAXIO]; };
static bool close_neighbour(Rng& r, const Fn& f, const double* x, double* y) {       // one argument slightly displaced, negated, or with another fraction
    std::vector<size_t> c; for (size_t k = 0; k < f.in.size(); k++) if (std::strchr("almrLc", f.in[k].kind) && std::isfinite(x[k])) c.push_back(k); if (c.empty()) return false;
    size_t q = c[r.next() % c.size()]; double v = x[q], w; const bool tied = f.post && !std::strchr("alm", f.in[q].kind);      // arguments generated together: stay very close
    switch (tied ? r.pick({1, 6, 6}) : (int) r.irange(0, 5)) { case 6: w = v + r.sign() * r.logu(f.cls == 'f' ? 1e-6 : 1e-13, 1e-5) * std::max(1e-3, std::fabs(v)); break; case 0: w = -v; break; case 1: w = f.cls == 'f' ? std::nextafter((float) v, (float) (1e30 * r.sign())) : std::nextafter(v, 1e300 * r.sign()); break; case 2: w = std::floor(v) + r.u(); break; default: w = v + r.sign() * r.logu(f.cls == 'f' ? 1e-6 : 1e-13, 1.0) * (r.coin() ? 1 : std::max(1e-3, std::fabs(v))); }
    const In& d = f.in[q]; if (d.kind == 'L' ? !(std::fabs(w) >= d.lo && std::fabs(w) <= d.hi) : !(w >= d.lo && w <= d.hi)) return false; std::memcpy(y, x, sizeof(double) * MAXIO); y[q] = w; return true;
}
static void neighbour(Rng& r, const Fn& f, const double* x, double* y) {       // same arguments but one
    if (r.coin(0.45) && close_neighbour(r, f, x, y)) return;
    gen_inputs(r, f, y); if (f.post) { double z[MAXIO]; std::memcpy(z, x, sizeof z); std::vector<size_t> c; for (size_t k = 0; k < f.in.size(); k++) if (std::strchr("alm", f.in[k].kind) && x[k] >= f.in[k].lo && x[k] <= f.in[k].hi) c.push_back(k); if (c.empty() || r.coin(0.3)) return; size_t q = c[r.next() % c.size()]; if (y[q] < f.in[q].lo || y[q] > f.in[q].hi) return; z[q] = y[q]; std::memcpy(y, z, sizeof z); return; }
    size_t q = r.next() % f.in.size(); for (size_t k = 0; k < f.in.size(); k++) if (k != q) y[k] = x[k];
}
struct Env { uint64_t fp, fds, locale, umask_, outsz; };
static Env env_now(int skip_fd) {
    Env e{}; fenv_t fe; fegetenv(&fe); e.fp = (uint64_t) fegetround() * 1000003u;
#if defined(__x86_64__)
    e.fp ^= ((uint64_t) fe.__control_word << 32) ^ (fe.__mxcsr & ~0x3fu);     // everything but the sticky flags
#endif
    (void) skip_fd; DIR* d = opendir("/proc/self/fd"); if (d) { uint64_t h = 0; while (dirent* q = readdir(d)) h += mix(hash_str(q->d_name), 7); closedir(d); e.fds = h; }
    const char* l = setlocale(LC_ALL, nullptr); e.locale = hash_str(l ? l : "?"); mode_t m = ::umask(0); ::umask(m); e.umask_ = m; return e;
}
GROUP("P02", histories, 6000, 200000) {
    auto& F = fns(); const int NF = (int) r.irange(2, 24), NC = 60; std::vector<Call> c(NC); std::vector<const Fn*> sub; for (int k = 0; k < NF; k++) sub.push_back(&F[k == 0 ? (size_t) idx % F.size() : r.next() % F.size()]);
    for (int k = 0; k < NC; k++) { const Fn* f = k < NC / 3 ? sub[0] : sub[r.next() % sub.size()]; c[k].f = f; int prev = -1; for (int q = k - 1; q >= 0 && prev < 0; q--) if (c[q].f == f && r.coin(0.6)) prev = q; if (prev >= 0) neighbour(r, *f, c[prev].x, c[k].x); else if (r.coin(0.1)) gen_extreme(r, *f, c[k].x); else gen_inputs(r, *f, c[k].x); }
    in_clear(); note("history of %d calls, first function %s", NC, sub[0]->name); std::vector<int> o1(NC), o2; for (int k = 0; k < NC; k++) o1[k] = k; o2 = o1; for (int k = NC - 1; k > 0; k--) std::swap(o2[k], o2[r.next() % (k + 1)]); std::vector<int> dup = o2; for (int k = 0; k < NC / 2; k++) dup.insert(dup.begin() + (long) (r.next() % (dup.size() + 1)), (int) (r.next() % NC));
    // every history runs in a process in which nothing has been called before
    auto run = [&](const std::vector<int>& order, int poison_a, int poison_b) { return run_child<double>((size_t) NC * MAXIO + 2 * sizeof(Env) / 8 + 4, [&](double* out, int keep) {
        (void) keep; char tn[64]; snprintf(tn, sizeof tn, "/tmp/vp_cap_%d", (int) getpid()); int cap = open(tn, O_RDWR | O_CREAT | O_TRUNC, 0600); unlink(tn); int so = ::dup(1), se = ::dup(2); if (cap < 0) _exit(2); dup2(cap, 1); dup2(cap, 2);
        Env e0 = env_now(-1); bool mod = false, twice = true; int bad = -1, k = 0; std::vector<bool> done(NC, false);
        for (int q : order) { g_poison = k++ & 1 ? poison_b : poison_a; double o[MAXIO] = {0}; g_input_modified = false; c[q].f->sut(c[q].x, o); mod = mod || g_input_modified; if (g_input_modified && bad < 0) bad = q; double* t = out + (size_t) q * MAXIO; if (done[q]) for (size_t w = 0; w < c[q].f->out.size(); w++) { if (hd(t[w]) != hd(o[w]) && !(t[w] != t[w] && o[w] != o[w])) { twice = false; bad = q; } } else std::memcpy(t, o, sizeof o); done[q] = true; }
        Env e1 = env_now(-1); fflush(stdout); fflush(stderr); struct stat sb; fstat(cap, &sb); e1.outsz = (uint64_t) sb.st_size; dup2(so, 1); dup2(se, 2); close(so); close(se); close(cap); std::memcpy(out + NC * MAXIO, &e0, sizeof e0); std::memcpy(out + NC * MAXIO + sizeof(Env) / 8, &e1, sizeof e1); double* t = out + NC * MAXIO + 2 * sizeof(Env) / 8; t[0] = mod; t[1] = twice; t[2] = bad;
    }, sub[0]->name, "history-completes"); };
    auto a = run(o1, 0xA5, 0x00), b = run(dup, 0x7F, 0xFF); std::vector<int> single(1, 0); if (a.empty() || b.empty()) return;
    for (auto* v : {&a, &b}) { Env e0, e1; std::memcpy(&e0, v->data() + NC * MAXIO, sizeof e0); std::memcpy(&e1, v->data() + NC * MAXIO + sizeof(Env) / 8, sizeof e1); const double* t = v->data() + NC * MAXIO + 2 * sizeof(Env) / 8; int bad = (int) t[2]; const char* bn = bad >= 0 ? c[bad].f->name : "API";
        if (bad >= 0) log_in(*c[bad].f, c[bad].x); chk(t[0] == 0, bn, "read-only-input-unmodified"); chk(t[1] == 1, bn, "repeat-call-identical"); chk(e0.fp == e1.fp, "API", "fp-environment-kept", "history starting with %s", sub[0]->name); chk(e0.fds == e1.fds, "API", "open-files-kept"); chk(e0.locale == e1.locale && e0.umask_ == e1.umask_, "API", "process-settings-kept"); chk(e1.outsz == 0, "API", "streams-silent", "%llu bytes", (unsigned long long) e1.outsz); }
    uint64_t h = 0; for (int q = 0; q < NC; q++) { bool same = true; const double *u = &a[(size_t) q * MAXIO], *v = &b[(size_t) q * MAXIO]; for (size_t w = 0; w < c[q].f->out.size(); w++) if (hd(u[w]) != hd(v[w]) && !(u[w] != u[w] && v[w] != v[w])) same = false; if (!same) log_in(*c[q].f, c[q].x); chk(same, c[q].f->name, "same-in-every-history"); h = mix(h, out_hash(*c[q].f, u)); } seen("history", h); covered("history-pair");
}
// long service: the thousandth call gives what the first one gave
GROUP("P02", endurance, 1200, 20000) {
    auto& F = fns(); const Fn& f = F[idx % F.size()]; const int NX = (int) r.irange(1, 4); std::vector<Call> c(NX); for (auto& q : c) { q.f = &f; gen_inputs(r, f, q.x); } const Fn& g = F[r.next() % F.size()]; Call other; other.f = &g; gen_inputs(r, g, other.x); in_clear(); note("long series of %s with %s in between", f.name, g.name);
    auto v = run_child<double>(4, [&](double* out, int) { ::srand(5); double o[4][MAXIO] = {{0}}, t[MAXIO]; timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); long n = 0, bad = -1; int sel = 0; for (; n < 20000 && bad < 0; n++) { sel = (int) (n % NX); std::memset(t, 0, sizeof t); g_poison = n & 1 ? 0x00 : 0xA5; f.sut(c[sel].x, n < NX ? o[sel] : t); if (n % 997 == 500) { double z[MAXIO] = {0}; g.sut(other.x, z); } if (n >= NX) for (size_t w = 0; w < f.out.size(); w++) if (hd(t[w]) != hd(o[sel][w]) && !(t[w] != t[w] && o[sel][w] != o[sel][w])) bad = n; if (n % 64 == 63 && n >= 600) { clock_gettime(CLOCK_MONOTONIC, &b); if ((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec) > 0.03) break; } }
        out[0] = (double) n; out[1] = (double) bad; out[2] = sel; int k = ::rand(); ::srand(5); out[3] = k == ::rand(); }, f.name, "long-series-completes"); if (v.empty()) return;
    log_in(f, c[(int) v[2]].x); chk(v[1] < 0, f.name, "constant-over-long-series", "call %ld differs from the first", (long) v[1]); chk(v[3] == 1, f.name, "process-random-state-kept"); seen(f.name, (uint64_t) v[0]); covered(v[0] >= 10000 ? "ten-thousand-calls" : "hundreds-of-calls");
}
// ---------------------------------------------------------------- P03: threads released together; race detector plus comparison with sequential results
struct Bar { std::atomic<int> n{0}; int want; void wait() { n++; while (n.load() < want) ; } };
GROUP("P03", concurrent, 1200, 20000) {
    auto& F = fns(); const bool self = idx < (long) (4 * F.size()); const int T = (int) r.irange(2, self ? 4 : 6), NC = self ? 64 : 40; std::vector<std::vector<Call>> c(T); std::vector<const Fn*> sub; if (self) sub.push_back(&F[idx % F.size()]); else for (int k = 0; k < 10; k++) sub.push_back(&F[r.next() % F.size()]);
    for (auto& v : c) { v.resize(NC); for (auto& q : v) { q.f = sub[r.next() % sub.size()]; gen_inputs(r, *q.f, q.x); if (r.coin(0.1)) gen_extreme(r, *q.f, q.x); } }
    // one function: every thread meets every situation (in its own order), so that rarely taken paths run in several threads
    if (self || r.coin(0.3)) for (int t = 1; t < T; t++) { c[t] = c[0]; if (self) for (int k = NC - 1; k > 0; k--) std::swap(c[t][k], c[t][r.next() % (k + 1)]); }
    in_clear(); note("%d threads, %d calls each, first function %s", T, NC, sub[0]->name); size_t per = (size_t) NC * MAXIO;
    auto par = run_child<double>(T * per, [&](double* out, int) { Bar bar; bar.want = T; std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back([&, t] { bar.wait(); for (int k = 0; k < NC; k++) { double o[MAXIO] = {0}; g_poison = 0xA5; c[t][k].f->sut(c[t][k].x, o); std::memcpy(out + t * per + (size_t) k * MAXIO, o, sizeof o); if ((k ^ t) % 3 == 0) std::this_thread::yield(); } }); for (auto& q : th) q.join(); }, sub[0]->name, "race-free");
    if (par.empty()) return;
    auto ser = run_child<double>(T * per, [&](double* out, int) { for (int t = T - 1; t >= 0; t--) for (int k = 0; k < NC; k++) { double o[MAXIO] = {0}; c[t][k].f->sut(c[t][k].x, o); std::memcpy(out + t * per + (size_t) k * MAXIO, o, sizeof o); } }, sub[0]->name, "sequential-run-completes"); if (ser.empty()) return;
    for (int t = 0; t < T; t++) for (int k = 0; k < NC; k++) { bool same = true; const double *u = &par[t * per + (size_t) k * MAXIO], *v = &ser[t * per + (size_t) k * MAXIO]; for (size_t w = 0; w < c[t][k].f->out.size(); w++) if (hd(u[w]) != hd(v[w]) && !(u[w] != u[w] && v[w] != v[w])) same = false; if (!same) log_in(*c[t][k].f, c[t][k].x); chk(same, c[t][k].f->name, "concurrent-equals-sequential", "thread %d call %d", t, k); seen(c[t][k].f->name, out_hash(*c[t][k].f, u)); } covered(sub.size() == 1 ? "concurrent-first-calls" : "concurrent-mix");
}
#ifdef VP_THREAD_SAFE
GROUP("P03", generators_per_thread, 160, 4000) {
    const int T = (int) r.irange(2, 6), N = 400; std::vector<float> seed(T); std::vector<std::vector<char>> what(T); for (int t = 0; t < T; t++) { seed[t] = (float) r.uni(-1e6, 1e6); for (int k = 0; k < N; k++) what[t].push_back((char) r.irange(0, idx % 3 == 0 ? 0 : idx % 3 == 1 ? 1 : 2)); } in(T);
    auto body = [&](int t, float* o) { for (int k = 0; k < N; k++) o[k] = what[t][k] == 0 ? sla::random(seed[t] + (float) k) : sla::gresid(what[t][k] == 1 ? 1.0f : 2.5f); };
    auto par = run_child<float>((size_t) T * N, [&](float* out, int) { Bar bar; bar.want = T; std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back([&, t] { bar.wait(); body(t, out + (size_t) t * N); }); for (auto& q : th) q.join(); }, "random/gresid", "race-free"); if (par.empty()) return;
    for (int t = 0; t < T; t++) { auto s = run_child<float>((size_t) N, [&](float* out, int) { body(t, out); }, "random/gresid", "sequential-run-completes"); if (s.empty()) return; chk(!std::memcmp(s.data(), &par[(size_t) t * N], N * sizeof(float)), "random/gresid", "per-thread-sequence", "thread %d of %d", t, T); seen("rng", hd(s[N - 1])); } covered("generators-concurrent");
}
#endif
// ---------------------------------------------------------------- P04
using namespace sla;
template <class T> static void alias_case(Rng& r, const char* mxm_n, void (*fmm)(const Matrix<T>, const Matrix<T>, Matrix<T>), const char* mxv_n, void (*fmv)(const Matrix<T>, const Vector<T>, Vector<T>), const char* imxv_n, void (*fiv)(const Matrix<T>, const Vector<T>, Vector<T>), const char* vxv_n, void (*fvv)(const Vector<T>, const Vector<T>, Vector<T>)) {
    const LD eps = sizeof(T) == 8 ? EPSD : EPSF; T a[3][3], b[3][3], u[3], v[3]; auto gv = [&]() -> T { return (T) (r.coin(0.1) ? (double) r.irange(-1, 1) : r.gauss() * (r.coin(0.3) ? r.logu(1e-3, 1e3) : 1)); };
    for (int i = 0; i < 3; i++) { u[i] = gv(); v[i] = gv(); for (int j = 0; j < 3; j++) { a[i][j] = gv(); b[i][j] = gv(); } } if (r.coin(0.3)) { double q[9]; gen_rot(r, q); for (int k = 0; k < 9; k++) a[k / 3][k % 3] = (T) q[k]; }
    in_clear(); for (int k = 0; k < 9; k++) in_add(a[k / 3][k % 3]); for (int k = 0; k < 9; k++) in_add(b[k / 3][k % 3]); for (int k = 0; k < 3; k++) in_add(u[k]); for (int k = 0; k < 3; k++) in_add(v[k]);
    T c[3][3], w[3]; auto cpm = [](T (*d)[3], const T (*s)[3]) { std::memcpy(d, s, 9 * sizeof(T)); };
    auto cmpm = [&](const T (*x)[3], const T (*y)[3], const T (*p)[3], const T (*q)[3], const char* fn, const char* wh) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD m = 0; for (int k = 0; k < 3; k++) m += std::fabs((LD) p[i][k] * q[k][j]); near_(x[i][j], y[i][j], 8 * eps * m + 1e-42L, fn, wh); } };
    auto cmpv = [&](const T* x, const T* y, LD m, const char* fn, const char* wh) { for (int i = 0; i < 3; i++) near_(x[i], y[i], 8 * eps * m + 1e-42L, fn, wh); };
    T x[3][3], y[3][3]; fmm(a, b, c); cpm(x, a); fmm(x, b, x); cmpm(x, c, a, b, mxm_n, "result-over-first-factor"); cpm(y, b); fmm(a, y, y); cmpm(y, c, a, b, mxm_n, "result-over-second-factor"); fmm(a, a, c); cpm(x, a); fmm(x, x, x); cmpm(x, c, a, a, mxm_n, "result-over-both-factors");
    LD mm = 0, mu = 0, mv = 0; for (int i = 0; i < 3; i++) { mu = std::max(mu, std::fabs((LD) u[i])); mv = std::max(mv, std::fabs((LD) v[i])); for (int j = 0; j < 3; j++) mm = std::max(mm, std::fabs((LD) a[i][j])); }
    T z[3]; fmv(a, u, w); std::memcpy(z, u, sizeof z); fmv(a, z, z); cmpv(z, w, 3 * mm * mu, mxv_n, "result-over-vector"); fiv(a, u, w); std::memcpy(z, u, sizeof z); fiv(a, z, z); cmpv(z, w, 3 * mm * mu, imxv_n, "result-over-vector");
    fvv(u, v, w); std::memcpy(z, u, sizeof z); fvv(z, v, z); cmpv(z, w, 2 * mu * mv, vxv_n, "result-over-first"); std::memcpy(z, v, sizeof z); fvv(u, z, z); cmpv(z, w, 2 * mu * mv, vxv_n, "result-over-second"); std::memcpy(z, u, sizeof z); fvv(z, z, z); T zero[3] = {0, 0, 0}; cmpv(z, zero, 2 * mu * mu, vxv_n, "result-over-both"); seen(mxm_n, hd((double) c[0][1]) ^ hd((double) w[1]));
    // the separate-output results are themselves the products (so that equality above is not between two wrong answers)
    fmm(a, b, c); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD s = 0, m = 0; for (int k = 0; k < 3; k++) { s += (LD) a[i][k] * b[k][j]; m += std::fabs((LD) a[i][k] * b[k][j]); } near_(c[i][j], s, 8 * eps * m + 1e-42L, mxm_n, "product"); }
}
GROUP("P04", alias_double, 60000, 4000000) { alias_case<double>(r, "dmxm", dmxm, "dmxv", dmxv, "dimxv", dimxv, "dvxv", dvxv); }
GROUP("P04", alias_single, 60000, 4000000) { alias_case<float>(r, "mxm", mxm, "mxv", mxv, "imxv", imxv, "vxv", vxv); }

// ---------------------------------------------------------------- P35
void twin_check(Rng& r, const Fn& f, const Fn& g, const double* x);
static const std::vector<std::pair<const Fn*, const Fn*>>& twins() { static std::vector<std::pair<const Fn*, const Fn*>> v; if (v.empty()) for (auto& f : fns()) if (f.cls == 'f' && f.twin && *f.twin) { const Fn* g = find_fn(f.twin); if (!g) { fprintf(stderr, "no twin %s\n", f.twin); exit(2); } v.push_back({&f, g}); } return v; }
GROUP("P35", twins, 120000, 6000000) { auto& t = twins()[idx % twins().size()]; double x[MAXIO]; gen_inputs(r, *t.first, x); twin_check(r, *t.first, *t.second, x); }
GROUP("P35", formatting_twins, 60000, 3000000) {
    int ndp = (int) r.irange(-2, 4); float v = (float) gen_real(r, -6.5, 6.5); if (r.coin(0.2)) v = (float) ((double) r.irange(-86400, 86400) / 86400.0 * (idx % 3 ? TWOPI : 1)); in(ndp, v); int n = ndp < 0 ? 0 : ndp; const LD P = std::pow(10.0L, n);
    auto rec = [&](const ConversionResult& c, int sub) -> LD { (void) sub; return (((LD) c.get_hours() * 60 + c.get_minutes()) * 60 + c.get_seconds()) * P + c.get_fraction(); };
    ConversionResult a, b; poison(a); poison(b); const char* fn; LD unit; if (idx % 3 == 0) { cd2tf(ndp, v, a); dd2tf(ndp, v, b); fn = "cd2tf"; unit = 86400; } else if (idx % 3 == 1) { cr2tf(ndp, v, a); dr2tf(ndp, v, b); fn = "cr2tf"; unit = 86400 / (2 * PIl); } else { cr2af(ndp, v, a); dr2af(ndp, v, b); fn = "cr2af"; unit = 3600 * 180 / PIl; }
    near_(rec(a, 0), rec(b, 0), 1 + 4 * EPSF * std::fabs((LD) v) * unit * P, fn, "twin-fields"); if (v != 0) chk(a.get_sign() == b.get_sign(), fn, "twin-sign"); seen(fn, hd((double) rec(a, 0))); covered("twin-pair-compared");
}
GROUP("P35", solver_twins, 20000, 1000000) {
    int n = (int) r.irange(1, 7); std::vector<float> a(n * n), b(n); std::vector<double> da(n * n), db(n); std::vector<int> w(n); std::vector<int> p(n); for (int k = 0; k < n; k++) p[k] = k; for (int k = n - 1; k > 0; k--) std::swap(p[k], p[r.irange(0, k)]);
    for (int i = 0; i < n; i++) { b[i] = (float) r.gauss(); for (int j = 0; j < n; j++) a[i * n + j] = (float) (r.uni(-1, 1) / n + (j == p[i] ? 3 * r.sign() : 0)); } bool sing = r.coin(0.1); if (sing) { int k = (int) r.irange(0, n - 1); for (int j = 0; j < n; j++) (r.coin() ? a[k * n + j] : a[k * n + j]) = 0; }
    std::copy(a.begin(), a.end(), da.begin()); std::copy(b.begin(), b.end(), db.begin()); in_clear(); in_add(n); for (int k = 0; k < n * n; k++) in_add(a[k]); float d; double dd; poison(d); poison(dd); bool s = smat(n, a.data(), b.data(), d, w.data()), t = dmat(n, da.data(), db.data(), dd, w.data()); if (!chk(s == t, "smat", "twin-status")) return; if (s) { chk(d == 0 && dd == 0, "smat", "twin-singular-determinant"); covered("twin-singular"); return; }
    const LD K = 40.0L * n * EPSF; for (int k = 0; k < n; k++) near_(b[k], db[k], K * 4, "smat", "twin-solution"); for (int k = 0; k < n * n; k++) near_(a[k], da[k], K, "smat", "twin-inverse"); near_(d, dd, K * std::fabs((LD) dd), "smat", "twin-determinant"); seen("smat", hd(d)); covered("twin-pair-compared");
}
