// Common runtime-monitoring harness: seeded workload generation, monitors, observation statistics, registry.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cfloat>
#include <climits>
#include <algorithm>
#include <functional>
#include <map>
#include <string>
#include <vector>

using LD = long double;
constexpr LD PIl = 3.141592653589793238462643383279502884L;
constexpr double PI = 3.14159265358979323846;
constexpr double TWOPI = 6.28318530717958647692;
constexpr double D2R = PI / 180.0;
constexpr double AS2R = D2R / 3600.0;
constexpr double EPSD = 2.220446049250313e-16;   // DBL_EPSILON
constexpr double EPSF = 1.1920928955078125e-7;   // FLT_EPSILON

// ---------------------------------------------------------------- random numbers
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * 0x1p-53; }
    double uni(double a, double b) { return a + (b - a) * u(); }
    long irange(long a, long b) { return a + (long) (next() % (uint64_t) (b - a + 1)); }
    bool coin(double p = 0.5) { return u() < p; }
    double sign() { return (next() & 1) ? 1.0 : -1.0; }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    double gauss() { double t = 0; for (int k = 0; k < 12; k++) t += u(); return t - 6.0; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + (next() % l.size())); }
};
uint64_t hash_str(const char* s, uint64_t h = 1469598103934665603ull);
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2)); z *= 0xff51afd7ed558ccdull; return z ^ (z >> 33); }

// ---------------------------------------------------------------- run state
extern std::string g_tier;        // quick | thorough
extern uint64_t g_seed;
extern bool g_verbose;
extern thread_local int g_poison;              // byte pattern given to output variables before a call
extern thread_local bool g_input_modified;     // set by Guard<> when a read-only input changed
bool thorough();

// literals harvested from the current sources (workload dictionary only; never used for judging)
const std::vector<double>& dict(const char* file);   // literals of src/<file>.cc
const std::vector<double>& dict_all();

// ---------------------------------------------------------------- cases and groups
using CaseFn = void (*)(Rng& r, long idx);
struct Group { const char* prop; const char* name; long nq, nt; CaseFn fn; };
std::vector<Group>& groups();
struct RegGroup { RegGroup(const char* p, const char* n, long q, long t, CaseFn f) { groups().push_back({p, n, q, t, f}); } };
#define GROUP(PROP, NAME, NQ, NT) \
    static void grp_##NAME(Rng& r, long idx); \
    static RegGroup reg_##NAME(PROP, #NAME, NQ, NT, grp_##NAME); \
    static void grp_##NAME([[maybe_unused]] Rng& r, [[maybe_unused]] long idx)

// current inputs, for reports
void in_clear();
void in_add(double v);
inline void in_log() { in_clear(); }
template <class... A> void in(A... a) { in_clear(); (in_add((double) a), ...); }
void note(const char* fmt, ...);   // free-text description of current case

// ---------------------------------------------------------------- monitors
// All return true when the observation is fine. fn = API function observed, what = clause of the property.
bool chk(bool ok, const char* fn, const char* what, const char* fmt = "", ...) __attribute__((format(printf, 4, 5)));
bool near_(LD got, LD want, LD tol, const char* fn, const char* what);
bool neara(LD got, LD want, LD tol, const char* fn, const char* what);   // modulo one turn
inline LD adiff(LD a, LD b) { return std::fabs(std::remainder(a - b, 2.0L * PIl)); }
void seen(const char* fn, uint64_t h);      // records a distinct observed outcome
inline uint64_t hd(double d) { uint64_t x; std::memcpy(&x, &d, 8); return x; }
void covered(const char* label);            // evidence: class of situation reached

// ---------------------------------------------------------------- value generators
double gen_ang(Rng& r);                     // any angle, biased to special ones
double gen_lat(Rng& r);                     // [-pi/2, pi/2], biased
double gen_lon(Rng& r);                     // [0,2pi)
double gen_real(Rng& r, double lo, double hi, const std::vector<double>* d = nullptr);
double gen_mjd(Rng& r, double lo, double hi, const std::vector<double>* d = nullptr);
double jitter(Rng& r, double v);            // v, or v displaced by an ulp / a small amount
void gen_unit(Rng& r, double* v);
void gen_vec(Rng& r, double* v, double smin = 1e-3, double smax = 1e3);
void gen_rot(Rng& r, double* m);            // 3x3 proper rotation

// ---------------------------------------------------------------- registry of API entry points
constexpr int MAXIO = 64;
struct In { char kind; double lo, hi; };
inline In ang() { return {'a', -1e7, 1e7}; }
inline In lat() { return {'l', -PI / 2, PI / 2}; }
inline In real(double lo, double hi) { return {'r', lo, hi}; }
inline In logr(double lo, double hi) { return {'L', lo, hi}; }    // +- log-uniform magnitude
inline In mjd(double lo = 10000, double hi = 90000) { return {'m', lo, hi}; }
inline In integer(double lo, double hi) { return {'i', lo, hi}; }
inline In comp() { return {'c', -1e4, 1e4}; }
template <class... A> std::vector<In> ins(A... a) { return std::vector<In>{a...}; }
template <class T> std::vector<T> rep(std::vector<T> v, int n) { std::vector<T> o; for (int k = 0; k < n; k++) o.insert(o.end(), v.begin(), v.end()); return o; }
template <class T> std::vector<T> operator+(std::vector<T> a, const std::vector<T>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

struct Out { char kind; double scale; };     // 'r' real (absolute scale), 'a' angle mod 2pi, 'p' longitude followed by its latitude, 'e' exact
inline Out rl(double scale = 1.0) { return {'r', scale}; }
inline Out an(double scale = 1.0) { return {'a', scale}; }
inline Out ex() { return {'e', 0}; }
template <class... A> std::vector<Out> outs(A... a) { return std::vector<Out>{a...}; }

using PostFn = void (*)(Rng& r, double* x);
using SutFn = void (*)(const double* i, double* o);
using RefFn = void (*)(const LD* i, LD* o);
struct Fn {
    const char* name; const char* props; char cls; double k;
    std::vector<In> in; PostFn post; std::vector<Out> out; SutFn sut; RefFn ref;
    const char* twin;    // for single-precision functions: name of the double-precision one
};
std::vector<Fn>& fns();
const Fn* find_fn(const char* name);
struct RegFn { RegFn(Fn f) { fns().push_back(f); } };
void gen_inputs(Rng& r, const Fn& f, double* x);
void gen_extreme(Rng& r, const Fn& f, double* x);   // limits, signed zeros, denormals, very large values
// runs the function under observation and compares with the extended-precision shadow; returns outputs
void shadow_check(Rng& r, const Fn& f, const double* x);
void shadow_burst(Rng& r, const Fn& f);
std::vector<const Fn*> fns_of(const char* prop);   // registered functions anchoring a property
// tolerance (per output) attributable to rounding of the given inputs
void cond_var(Rng& r, const Fn& f, const double* x, const LD* r0, LD* var, bool* unstable, double eps);

#define BODY_SUT(...) [](const double* i, double* o) { namespace L = sla; using D = double; using F = float; [[maybe_unused]] constexpr bool isref = false; __VA_ARGS__ }
#define BODY_REF(...) [](const LD* i, LD* o) { namespace L = slaref; using D = LD; using F = LD; [[maybe_unused]] constexpr bool isref = true; __VA_ARGS__ }
// double-precision function / single-precision function with twin
#define FND(NAME, PROPS, K, INS, POST, OUTS, ...) \
    static RegFn rf_##NAME(Fn{#NAME, PROPS, 'd', K, INS, POST, OUTS, BODY_SUT(__VA_ARGS__), BODY_REF(__VA_ARGS__), nullptr});
#define FNF(NAME, TWIN, PROPS, K, INS, POST, OUTS, ...) \
    static RegFn rf_##NAME(Fn{#NAME, PROPS, 'f', K, INS, POST, OUTS, BODY_SUT(__VA_ARGS__), BODY_REF(__VA_ARGS__), TWIN});

template <class T> struct Guard {            // read-only input with modification monitor
    T c; T v;                                // v last: an overrun meets the sanitizer's redzone
    Guard(const T& x) { std::memcpy((void*) &v, (const void*) &x, sizeof(T)); std::memcpy((void*) &c, (const void*) &v, sizeof(T)); }
    ~Guard() { if (std::memcmp((const void*) &v, (const void*) &c, sizeof(T)) != 0) g_input_modified = true; }
};
template <class T, int N> struct GArr {      // read-only input array
    T c[N]; T v[N];
    template <class S> GArr(const S* p) { for (int k = 0; k < N; k++) v[k] = c[k] = (T) p[k]; }
    ~GArr() { for (int k = 0; k < N; k++) if (!(v[k] == c[k]) && !(v[k] != v[k] && c[k] != c[k])) g_input_modified = true; }
    operator T*() { return v; }
};
template <class T> struct GMat {
    T c[3][3]; T v[3][3];
    template <class S> GMat(const S* p) { for (int k = 0; k < 9; k++) v[k / 3][k % 3] = c[k / 3][k % 3] = (T) p[k]; }
    ~GMat() { for (int k = 0; k < 9; k++) if (!(v[k / 3][k % 3] == c[k / 3][k % 3])) g_input_modified = true; }
};
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define VP_MSAN 1
#endif
#endif
#ifdef VP_MSAN
template <class T> inline void poison(T& t) { __msan_poison((void*) &t, sizeof t); }   // truly uninitialised
#else
template <class T> inline void poison(T& t) { std::memset((void*) &t, g_poison, sizeof t); }
#endif
template <class T> struct P {                // output variable, poisoned
    T v;
    P() { poison(v); }
};
template <class T, int N> struct PArr { T v[N]; PArr() { poison(v); } operator T*() { return v; } template <class S> void put(S* o) { for (int k = 0; k < N; k++) o[k] = (S) v[k]; } };
template <class T> struct PMat { T v[3][3]; PMat() { poison(v); } template <class S> void put(S* o) { for (int k = 0; k < 9; k++) o[k] = (S) v[k / 3][k % 3]; } };
