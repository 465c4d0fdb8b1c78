// Driver: runs the case groups of one property, watches them, reports observations.
#include "vp.h"
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <set>
#include <atomic>
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(undefined_behavior_sanitizer)
#define HAVE_SAN 1
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
#endif
#endif

std::string g_tier = "quick";
uint64_t g_seed = 1;
bool g_verbose = false;
thread_local int g_poison = 0xA5;
thread_local bool g_input_modified = false;
bool g_ignore_checks = false;    // workloads of other properties, run for their sanitizer instrumentation only
bool thorough() { return g_tier == "thorough"; }

extern bool g_calibrating; void calib_report();
static std::string g_prop, g_group;
static long g_case = -1;
static volatile unsigned long g_progress = 0;
static double g_in[256]; static int g_nin = 0;
static char g_note[512];
static unsigned long long g_evals = 0, g_nviol = 0;
struct Stat { unsigned long long n = 0; double margin = 0; };
static std::map<std::string, Stat> g_stats;
static std::map<std::string, unsigned long long> g_cov;
static std::map<std::string, int> g_vsig;
static std::map<std::string, std::vector<double>> g_dicts;
static std::vector<double> g_all;
static std::vector<uint8_t> g_bitmap(1u << 19, 0);   // 2^22 bits: distinct observed outcomes
static std::vector<std::string> g_samples;

std::vector<Group>& groups() { static std::vector<Group> g; return g; }
std::vector<Fn>& fns() { static std::vector<Fn> f; return f; }
const Fn* find_fn(const char* name) { for (auto& f : fns()) if (!std::strcmp(f.name, name)) return &f; return nullptr; }
uint64_t hash_str(const char* s, uint64_t h) { for (; *s; s++) { h ^= (unsigned char) *s; h *= 1099511628211ull; } return h; }
static const std::vector<double> g_empty;
const std::vector<double>& dict(const char* file) { auto it = g_dicts.find(file); return it == g_dicts.end() ? g_empty : it->second; }
const std::vector<double>& dict_all() { return g_all; }

void in_clear() { g_nin = 0; g_note[0] = 0; }
void in_add(double v) { if (g_nin < 256) g_in[g_nin++] = v; }
void note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(g_note, sizeof g_note, fmt, ap); va_end(ap); }
void covered(const char* label) { g_cov[label]++; }
void seen(const char* fn, uint64_t h) {
    h = mix(hash_str(fn), h); h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32;
    g_bitmap[(h >> 3) & (g_bitmap.size() - 1)] |= (uint8_t) (1u << (h & 7));
}

static std::string esc(const char* s) { std::string o; for (; *s; s++) { if (*s == '"' || *s == '\\') o += '\\'; if ((unsigned char) *s < 32) o += ' '; else o += *s; } return o; }
static std::string inputs_str() {
    std::string s = "["; char b[64];
    for (int k = 0; k < g_nin; k++) { snprintf(b, sizeof b, "%s\"%.17g\"", k ? "," : "", g_in[k]); s += b; }
    return s + "]";
}
static void emit_viol(const char* sig, const char* msg) {
    printf("VIOL {\"sig\":\"%s\",\"group\":\"%s\",\"case\":%ld,\"msg\":\"%s\",\"note\":\"%s\",\"inputs\":%s}\n",
        esc(sig).c_str(), g_group.c_str(), g_case, esc(msg).c_str(), esc(g_note).c_str(), inputs_str().c_str());
    fflush(stdout);
}
bool chk(bool ok, const char* fn, const char* what, const char* fmt, ...) {
    g_evals++;
    auto& st = g_stats[std::string(fn) + "/" + what]; st.n++;
    if (ok || g_ignore_checks) return true;
    g_nviol++;
    std::string sig = std::string(fn) + "/" + what;
    if (g_vsig[sig]++ < 3) {
        char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        emit_viol(sig.c_str(), b);
    }
    return false;
}
static bool near_impl(LD d, LD got, LD want, LD tol, const char* fn, const char* what) {
    g_evals++;
    std::string sig = std::string(fn) + "/" + what;
    auto& st = g_stats[sig]; st.n++;
    bool ok = d <= tol;
    if (ok) { double m = tol > 0 ? (double) (d / tol) : 0; if (m > st.margin) st.margin = m; return true; }
    if (g_ignore_checks) return true;
    g_nviol++;
    st.margin = 1e9;
    if (g_vsig[sig]++ < 3) {
        char b[512]; snprintf(b, sizeof b, "got %.21Lg want %.21Lg diff %.6Lg tol %.6Lg", got, want, d, tol);
        emit_viol(sig.c_str(), b);
    }
    return false;
}
bool near_(LD got, LD want, LD tol, const char* fn, const char* what) { return near_impl(std::fabs(got - want), got, want, tol, fn, what); }
bool neara(LD got, LD want, LD tol, const char* fn, const char* what) { return near_impl(adiff(got, want), got, want, tol, fn, what); }

static void crash_line(const char* kind) {
    printf("CRASH {\"kind\":\"%s\",\"group\":\"%s\",\"case\":%ld,\"note\":\"%s\",\"inputs\":%s}\n", kind, g_group.c_str(), g_case, esc(g_note).c_str(), inputs_str().c_str());
    fflush(stdout);
}
static bool g_dead = false;
extern "C" void vp_death() { if (!g_dead) { g_dead = true; crash_line("sanitizer"); } }
static void on_abort(int sig) { if (!g_dead) { g_dead = true; crash_line(sig == SIGABRT ? "abort" : "signal"); } _exit(86); }
static void on_prof(int) {
    static unsigned long last = ~0ul; static int same = 0;
    if (g_progress == last) { if (++same >= 3) { g_dead = true; crash_line("hang"); _exit(87); } } else { same = 0; last = g_progress; }
}
extern "C" void vp_progress() { g_progress = g_progress + 1; }

std::atomic<int> g_races{0};
extern "C" __attribute__((used, visibility("default"))) void __tsan_on_report(void*) { g_races.fetch_add(1, std::memory_order_relaxed); }

static void load_dict(const char* path) {
    FILE* f = fopen(path, "r"); if (!f) { fprintf(stderr, "no dictionary %s\n", path); exit(2); }
    char name[256]; double v; std::set<double> all;
    while (fscanf(f, "%255s %lf", name, &v) == 2) { g_dicts[name].push_back(v); all.insert(v); }
    fclose(f); g_all.assign(all.begin(), all.end());
}

int main(int argc, char** argv) {
    std::string only_group; long only_case = -1; int shard = 0, nshard = 1; double scale = 1.0; std::string bitmap, list;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k]; auto nx = [&]() -> const char* { if (k + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++k]; };
        if (a == "--prop") g_prop = nx(); else if (a == "--tier") g_tier = nx();
        else if (a == "--seed") g_seed = strtoull(nx(), nullptr, 10);
        else if (a == "--shard") { if (sscanf(nx(), "%d/%d", &shard, &nshard) != 2) return 2; }
        else if (a == "--group") only_group = nx(); else if (a == "--case") only_case = atol(nx());
        else if (a == "--dict") load_dict(nx()); else if (a == "--bitmap") bitmap = nx();
        else if (a == "--scale") scale = atof(nx()); else if (a == "-v") g_verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
#ifdef HAVE_SAN
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(vp_death);
#endif
    signal(SIGABRT, on_abort);
#ifndef HAVE_SAN
    signal(SIGSEGV, on_abort); signal(SIGFPE, on_abort); signal(SIGBUS, on_abort); signal(SIGILL, on_abort);
#endif
    signal(SIGPROF, on_prof);
    struct itimerval tv; tv.it_interval.tv_sec = tv.it_value.tv_sec = 15; tv.it_interval.tv_usec = tv.it_value.tv_usec = 0;
    setitimer(ITIMER_PROF, &tv, nullptr);

    if (g_prop == "CALIB") {
        g_calibrating = true;
        for (auto& f : fns()) {
            if (f.k <= 0 || (!only_group.empty() && only_group != f.name)) continue;
            long n = (long) (20000 * scale);
            g_group = f.name;
            for (long c = 0; c < n; c++) { g_case = c; Rng r(mix(mix(g_seed, hash_str(f.name)), (uint64_t) c)); vp_progress(); double x[MAXIO]; gen_inputs(r, f, x); shadow_check(r, f, x); }
        }
        calib_report();
        return 0;
    }
    unsigned long long ncases = 0; bool any = false;
    std::map<std::string, unsigned long long> percase;
    const bool everything = g_prop == "P01";    // sanitizers watch the workloads of all properties
    for (auto& g : groups()) {
        const bool own = g_prop == g.prop;
        if (!own && !(everything && std::strcmp(g.prop, "P02") && std::strcmp(g.prop, "P03"))) continue;
        if (!only_group.empty() && only_group != g.name) continue;
        any = true;
        g_group = g.name;
        g_ignore_checks = !own;
        long n = (long) ((thorough() ? g.nt : g.nq) * scale);
        if (!own) { n = (long) ((thorough() ? g.nt / 40 : g.nq / 10) * scale); if (n > (thorough() ? 50000 : 3000)) n = thorough() ? 50000 : 3000; }
        if ((thorough() ? g.nt : g.nq) > 0 && n < 1) n = 1;
        for (long c = only_case >= 0 ? only_case : shard; c < (only_case >= 0 ? only_case + 1 : n); c += nshard) {
            g_case = c; in_clear();
            Rng r(mix(mix(g_seed, hash_str(g.name)), (uint64_t) c));
            vp_progress();
            g.fn(r, c);
            ncases++; percase[g.name]++;
            if ((ncases & (ncases - 1)) == 0 && g_samples.size() < 12) {
                std::string s = std::string("{\"group\":\"") + g.name + "\",\"case\":" + std::to_string(c) + ",\"inputs\":" + inputs_str() + "}";
                g_samples.push_back(s);
            }
        }
    }
    if (!any) { fprintf(stderr, "no groups for property %s\n", g_prop.c_str()); return 2; }
    if (!bitmap.empty()) { FILE* f = fopen(bitmap.c_str(), "wb"); if (!f || fwrite(g_bitmap.data(), 1, g_bitmap.size(), f) != g_bitmap.size()) return 2; fclose(f); }
    std::string js = "{\"evals\":" + std::to_string(g_evals) + ",\"cases\":" + std::to_string(ncases) + ",\"viol\":" + std::to_string(g_nviol) + ",\"groups\":{";
    bool first = true;
    for (auto& p : percase) { js += std::string(first ? "" : ",") + "\"" + p.first + "\":" + std::to_string(p.second); first = false; }
    js += "},\"clauses\":{"; first = true; char b[64];
    for (auto& p : g_stats) { snprintf(b, sizeof b, ":[%llu,%.3g]", p.second.n, p.second.margin); js += std::string(first ? "" : ",") + "\"" + esc(p.first.c_str()) + "\"" + b; first = false; }
    js += "},\"classes\":{"; first = true;
    for (auto& p : g_cov) { js += std::string(first ? "" : ",") + "\"" + esc(p.first.c_str()) + "\":" + std::to_string(p.second); first = false; }
    js += "},\"samples\":["; first = true;
    for (auto& s : g_samples) { js += (first ? "" : ",") + s; first = false; }
    js += "]}";
    printf("STATS %s\n", js.c_str());
    fflush(stdout);
    if (g_races.load() && !g_nviol) { g_group = "?"; g_case = -1; emit_viol("process/no-data-race", "race detector report in the driver process"); g_nviol++; }
    return g_nviol ? 3 : 0;
}
