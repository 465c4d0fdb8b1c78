// Independent oracles for P36 (timed waits, observed in virtual time) and P37 (structured data types and version report).
#include "vp.h"
#include "slalib.h"
#include <cerrno>
#include <ctime>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
using namespace sla;
extern "C" void vp_progress();

// ---------------------------------------------------------------- P36: virtual time
// While g_virtual is set, the sleeping primitives of this thread take no real time: what was slept is added to a virtual
// clock (which the clock functions then show too), and any sleep may be interrupted half way by a "signal".
static thread_local bool g_virtual; static thread_local LD g_slept; static thread_local long g_sleeps, g_interrupts; static thread_local Rng* g_rng; static thread_local double g_pintr;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define VP_NO_VIRTUAL_TIME
#endif
#endif
#ifndef VP_NO_VIRTUAL_TIME
static int real_gettime(clockid_t c, struct timespec* t) { return (int) syscall(SYS_clock_gettime, c, t); }
static LD secs(const struct timespec& t) { return (LD) t.tv_sec + t.tv_nsec * 1e-9L; }
static void put(LD s, struct timespec* t) { LD f = std::floor(s); t->tv_sec = (time_t) f; t->tv_nsec = (long) ((s - f) * 1e9L); }
static int virt_sleep(LD want, struct timespec* rem, bool& interrupted) {
    g_sleeps++; vp_progress(); interrupted = false; if (want < 0) want = 0; if (g_rng && want > 1e-6L && g_rng->coin(g_pintr)) { LD part = want * (LD) g_rng->uni(0, 0.99); g_slept += part; g_interrupts++; interrupted = true; if (rem) put(want - part + 1e-9L, rem); return EINTR; }
    g_slept += want; return 0;
}
extern "C" int nanosleep(const struct timespec* t, struct timespec* rem) {
    if (!g_virtual) { long r = syscall(SYS_nanosleep, t, rem); return r ? -1 : 0; }
    if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999) { g_sleeps++; errno = EINVAL; return -1; }
    bool i; if (virt_sleep(secs(*t), rem, i)) { errno = EINTR; return -1; } return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
    if (!g_virtual) { long r = syscall(SYS_clock_nanosleep, c, flags, t, rem); return r ? errno : 0; }
    if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999) { g_sleeps++; return EINVAL; }
    LD want = secs(*t); if (flags & TIMER_ABSTIME) { struct timespec n; real_gettime(c, &n); want -= secs(n) + g_slept; rem = nullptr; }
    bool i; return virt_sleep(want, rem, i);
}
extern "C" unsigned sleep(unsigned s) { if (!g_virtual) { struct timespec t = {(time_t) s, 0}, r = {0, 0}; return nanosleep(&t, &r) ? (unsigned) r.tv_sec : 0; } bool i; struct timespec r = {0, 0}; LD b = g_slept; virt_sleep(s, &r, i); return i ? (unsigned) std::ceil((LD) s - (g_slept - b)) : 0; }
extern "C" int usleep(useconds_t u) { struct timespec t = {(time_t) (u / 1000000), (long) (u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
extern "C" int clock_gettime(clockid_t c, struct timespec* t) { int r = real_gettime(c, t); if (!r && g_virtual) put(secs(*t) + g_slept, t); return r; }
static LD mono() { struct timespec t; real_gettime(CLOCK_MONOTONIC, &t); return secs(t); }
struct Waited { LD virt, real; long sleeps, interrupts; };
static Waited timed_wait(float s, Rng* r, double pintr) {
    g_slept = 0; g_sleeps = g_interrupts = 0; g_rng = r; g_pintr = pintr; LD a = mono(); g_virtual = true; sla::wait(s); g_virtual = false; return {g_slept, mono() - a, g_sleeps, g_interrupts};
}
static bool interceptable() { static int k = -1; if (k < 0) { Waited w = timed_wait(1.0f, nullptr, 0); k = w.virt > 0; } return k != 0; }
static float wait_len(Rng& r) { switch (r.irange(0, 6)) { case 0: return (float) r.irange(0, 20); case 1: return (float) r.irange(0, 20) + 0.5f; case 2: return (float) r.logu(1e-6, 1); case 3: return (float) r.logu(1, 1e6); case 4: return (float) r.uni(0, 3); case 5: return (float) r.logu(1e-3, 1e3); default: return (float) jitter(r, (double) r.irange(1, 100) * 0.5); } }
GROUP("P36", wait_duration, 20000, 600000) {
    bool vt = interceptable(); if (!vt && idx > 40) { covered("real-time-only"); return; }
    float s = vt ? wait_len(r) : (float) r.uni(0, 0.02); if (s < 0) s = -s; bool intr = vt && r.coin(0.4); in(s, intr); Waited w = timed_wait(s, intr ? &r : nullptr, r.pick({0.2, 0.5, 0.8})); LD total = w.virt + w.real;
    chk(total >= (LD) s * (1 - 1e-6L) - 2e-6L, "wait", w.interrupts ? "lasts-at-least-as-requested-despite-signals" : "lasts-at-least-as-requested", "waited %.9Lg s of %.9g", total, s);
    if (vt && w.virt > 0) chk(w.virt <= (LD) s * (1 + 1e-6L) + 0.01L, "wait", "lasts-no-longer-than-requested", "waited %.9Lg s of %.9g", w.virt, s);
    covered(w.interrupts > 1 ? "interrupted-repeatedly" : w.interrupts ? "interrupted-once" : "uninterrupted"); if (s < 0.5f) covered("less-than-half-a-second"); else if (s != std::floor(s)) covered("fractional"); else covered("whole-seconds"); seen("wait", hd((double) w.virt));
}
GROUP("P36", wait_nothing, 2000, 20000) {
    float s = r.pick({0.0f, -0.0f, -1.0f, -0.3f, -1e-30f, -1000.0f}); if (r.coin(0.3)) s = (float) -r.logu(1e-6, 1e8); in(s); Waited w = timed_wait(s, nullptr, 0); chk(w.virt <= 0.001L, "wait", "nothing-to-wait-for-returns-at-once", "waited %.9Lg s of %.9g", w.virt, s); covered("zero-or-negative"); seen("wait", hd(s));
}
GROUP("P36", wait_real_time, 8, 40) {
    float s = (float) r.uni(0.002, 0.06); in(s); LD a = mono(); sla::wait(s); LD d = mono() - a; chk(d >= (LD) s * (1 - 1e-6L) - 2e-6L, "wait", "lasts-at-least-as-requested-in-real-time", "waited %.9Lg s of %.9g", d, s); covered("real-time"); seen("wait", hd((double) d)); vp_progress();
}
#endif
// ---------------------------------------------------------------- P37: structured data types
// A record is driven by a random sequence of writes through randomly chosen names; a plain array mirrors what each field
// must hold, and every name of every field is read back after each write.
template <class R, class T> struct Field { const char* name; int slot; void (*set)(R&, T); T (*get)(const R&); };
template <class R, class T, class G> static void drive(Rng& r, R& rec, T* m, const Field<R, T>* f, int n, const char* type, G gen) {
    std::vector<bool> known(64, false); std::vector<int> wr; for (int k = 0; k < n; k++) if (f[k].set) wr.push_back(k);
    for (int step = 0; step < 2 * n; step++) {
        int k = wr[r.irange(0, (long) wr.size() - 1)]; T v = gen(r); in((double) k, (double) v); note("%s: write %s", type, f[k].name); f[k].set(rec, v); m[f[k].slot] = v; known[f[k].slot] = true;
        R copy = rec; const R& c = r.coin() ? rec : copy; for (int q = 0; q < n; q++) if (f[q].get && known[f[q].slot]) chk(f[q].get(c) == m[f[q].slot], type, "reads-back-what-was-written", "field %s after writing %s", f[q].name, f[k].name);
    }
    seen(type, hd((double) m[0]));
}
#define FLD(R, T, slot, name) {#name, slot, [](R& x, T v) { x.set_##name(v); }, [](const R& x) -> T { return x.get_##name(); }}
#define FRO(R, T, slot, expr) {#expr, slot, nullptr, [](const R& x) -> T { return x.expr; }}
template <class T> static void spherical_types(Rng& r, const char* t1, const char* t2, const char* t3, const char* t4) {
    auto gen = [](Rng& q) { return (T) q.uni(-10, 10); }; T m[8] = {};
    using S = Spherical<T>; static const Field<S, T> fs[] = {FLD(S, T, 0, longitude), FLD(S, T, 0, ra), FLD(S, T, 0, ha), FLD(S, T, 1, latitude), FLD(S, T, 1, dec), FRO(S, T, 0, s_a), FRO(S, T, 1, s_b)}; S s; drive(r, s, m, fs, 7, t1, gen);
    using Q = SphericalPos<T>; static const Field<Q, T> fq[] = {FLD(Q, T, 0, longitude), FLD(Q, T, 0, ra), FLD(Q, T, 0, ha), FLD(Q, T, 1, latitude), FLD(Q, T, 1, dec), FLD(Q, T, 2, dist), FRO(Q, T, 0, s_a), FRO(Q, T, 1, s_b), FRO(Q, T, 2, sp_dist)}; Q q; drive(r, q, m, fq, 9, t2, gen);
    using V = VectorPV<T>; static const Field<V, T> fv[] = {FLD(V, T, 0, x), FLD(V, T, 1, y), FLD(V, T, 2, z), FLD(V, T, 3, dx), FLD(V, T, 4, dy), FLD(V, T, 5, dz), FRO(V, T, 0, get_position()[0]), FRO(V, T, 1, get_position()[1]), FRO(V, T, 2, get_position()[2]), FRO(V, T, 3, get_velocity()[0]), FRO(V, T, 4, get_velocity()[1]), FRO(V, T, 5, get_velocity()[2])};
    { V v; drive(r, v, m, fv, 12, t3, gen); T p[3], d[3]; for (int k = 0; k < 3; k++) { p[k] = gen(r); d[k] = gen(r); } V w(p, d); in(p[0], p[1], p[2], d[0], d[1], d[2]); for (int k = 0; k < 12; k++) chk(fv[k].get(w) == (fv[k].slot < 3 ? p[fv[k].slot] : d[fv[k].slot - 3]), t3, "constructed-from-parts", "field %s", fv[k].name); }
    using P = SphericalPV<T>; static const Field<P, T> fp[] = {FLD(P, T, 0, longitude), FLD(P, T, 0, ra), FLD(P, T, 1, latitude), FLD(P, T, 1, dec), FLD(P, T, 2, dist), FLD(P, T, 3, dlong), FLD(P, T, 3, dra), FLD(P, T, 4, dlat), FLD(P, T, 4, ddec), FLD(P, T, 5, ddist),
        FRO(P, T, 0, get_direction().get_ra()), FRO(P, T, 1, get_direction().get_dec()), FRO(P, T, 0, get_position().get_ra()), FRO(P, T, 1, get_position().get_dec()), FRO(P, T, 2, get_position().get_dist()), FRO(P, T, 3, get_velocity().get_ra()), FRO(P, T, 4, get_velocity().get_dec()), FRO(P, T, 5, get_velocity().get_dist())};
    { P p; drive(r, p, m, fp, 18, t4, gen); Q a, b; T w[6]; for (auto& x : w) x = gen(r); a.set_ra(w[0]); a.set_dec(w[1]); a.set_dist(w[2]); b.set_ra(w[3]); b.set_dec(w[4]); b.set_dist(w[5]); P c(a, b); in(w[0], w[1], w[2], w[3], w[4], w[5]); for (int k = 0; k < 18; k++) chk(fp[k].get(c) == w[fp[k].slot], t4, "constructed-from-parts", "field %s", fp[k].name); }
}
GROUP("P37", coordinate_records, 4000, 100000) { if (idx & 1) spherical_types<double>(r, "Spherical<double>", "SphericalPos<double>", "VectorPV<double>", "SphericalPV<double>"); else spherical_types<float>(r, "Spherical<float>", "SphericalPos<float>", "VectorPV<float>", "SphericalPV<float>"); covered(idx & 1 ? "double" : "float"); }
GROUP("P37", mount_records, 4000, 100000) {
    using A = AltazMount; static const Field<A, double> f[] = {FLD(A, double, 0, azimuth), FLD(A, double, 1, az_velocity), FLD(A, double, 2, az_acceleration), FLD(A, double, 3, elevation), FLD(A, double, 4, el_velocity), FLD(A, double, 5, el_acceleration), FLD(A, double, 6, pangle), FLD(A, double, 7, pa_velocity), FLD(A, double, 8, pa_acceleration)};
    A a; double m[9]; drive(r, a, m, f, 9, "AltazMount", [](Rng& q) { return q.uni(-10, 10); }); covered("mount");
}
GROUP("P37", conversion_records, 4000, 100000) {
    using C = ConversionResult; static const Field<C, int> f[] = {FLD(C, int, 0, hours), FLD(C, int, 1, minutes), FLD(C, int, 2, seconds), FLD(C, int, 0, degrees), FLD(C, int, 1, arcminutes), FLD(C, int, 2, arcseconds), FLD(C, int, 3, fraction), {"sign(char)", 4, [](C& x, int v) { x.set_sign(v & 1 ? '+' : '-'); }, nullptr}, {"sign(bool)", 5, [](C& x, int v) { x.set_sign((v & 1) != 0); }, nullptr}};
    C c; int m[6]; drive(r, c, m, f, 9, "ConversionResult", [](Rng& q) { return (int) q.irange(INT_MIN, INT_MAX); });
    for (int k = 0; k < 6; k++) { int h = (int) r.irange(-1000, 1000); c.set_hours(h); bool plus = r.coin(); if (r.coin()) c.set_sign(plus); else c.set_sign(plus ? '+' : '-'); in(h, plus); if (r.coin()) { c.set_minutes(3); c.set_seconds(4); c.set_fraction(5); chk(c.get_arcminutes() == 3 && c.get_arcseconds() == 4 && c.get_fraction() == 5, "ConversionResult", "fields-kept"); } chk(c.get_sign() == (plus ? '+' : '-'), "ConversionResult", "sign-kept", "%c", c.get_sign()); chk(c.get_hours() == h && c.get_degrees() == h, "ConversionResult", "fields-survive-sign"); }
    covered("conversion-result");
}
GROUP("P37", model_records, 4000, 100000) {
    using M = FitCoeffs; static const Field<M, double> f[] = {FLD(M, double, 0, a), FLD(M, double, 1, b), FLD(M, double, 2, c), FLD(M, double, 3, d), FLD(M, double, 4, e), FLD(M, double, 5, f)}; M c; double m[6]; for (int k = 0; k < 6; k++) c[k] = m[k] = r.uni(-10, 10);
    in(m[0], m[1], m[2], m[3], m[4], m[5]); chk(c.get_nfields() == 6, "FitCoeffs", "six-fields"); for (int k = 0; k < 6; k++) { chk(f[k].get(c) == m[k], "FitCoeffs", "array-and-names-agree", "field %s", f[k].name); chk(c()[k] == m[k] && &c()[k] == &c[k], "FitCoeffs", "array-access", "field %s", f[k].name); }
    drive(r, c, m, f, 6, "FitCoeffs", [](Rng& q) { return q.uni(-10, 10); }); for (int k = 0; k < 6; k++) m[k] = f[k].get(c);
    for (int k = 0; k < 3; k++) { chk(c.get_abc()[k] == m[k] && c.get_def()[k] == m[k + 3], "FitCoeffs", "triples-are-the-fields", "%d", k); } int k = (int) r.irange(0, 2); c.get_abc()[k] = 77; c.get_def()[2 - k] = 78; m[k] = 77; m[5 - k] = 78; for (int q = 0; q < 6; q++) chk(f[q].get(c) == m[q] && c[q] == m[q], "FitCoeffs", "writes-through-triples", "field %s", f[q].name); covered("model");
}
GROUP("P37", version_report, 300, 1000) {
    int maj = -1, mi = -1, rel = -1, used = 0; const char* v = vers(); note("%s", v ? v : "(null)"); if (!chk(v != nullptr, "vers", "returned")) return; int n = std::sscanf(v, "%d.%d-%d%n", &maj, &mi, &rel, &used); chk(n == 3 && v[used] == 0, "vers", "documented-format", "'%s'", v); int i = veri(); in(i);
    chk(i == maj * 1000000 + mi * 1000 + rel, "veri", "agrees-with-version-string", "%d vs %s", i, v); chk(i == SLALIB_PACKAGE_VERSION_MAJOR * 1000000 + SLALIB_PACKAGE_VERSION_MINOR * 1000 + SLALIB_PACKAGE_VERSION_RELEASE, "veri", "agrees-with-header", "%d", i); chk(v == vers() || !std::strcmp(v, vers()), "vers", "stable"); seen("vers", hash_str(v)); covered("version");
}
