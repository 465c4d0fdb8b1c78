// Driver for the uninitialised-memory detector: same registry and generators, no C++ library code that is not instrumented.
#include "../vp.h"
#include <sanitizer/msan_interface.h>
#include <unistd.h>
std::string g_tier; uint64_t g_seed = 1; bool g_verbose = false; thread_local int g_poison = 0xA5; thread_local bool g_input_modified = false;
bool thorough() { return false; }
std::vector<Group>& groups() { static std::vector<Group> g; return g; }
std::vector<Fn>& fns() { static std::vector<Fn> f; return f; }
const Fn* find_fn(const char* name) { for (auto& f : fns()) if (!std::strcmp(f.name, name)) return &f; return nullptr; }
uint64_t hash_str(const char* s, uint64_t h) { for (; *s; s++) { h ^= (unsigned char) *s; h *= 1099511628211ull; } return h; }
static const std::vector<double> g_none;
const std::vector<double>& dict(const char*) { return g_none; }
const std::vector<double>& dict_all() { return g_none; }
void in_clear() {} void in_add(double) {} void note(const char*, ...) {} void covered(const char*) {} void seen(const char*, uint64_t) {}
bool chk(bool ok, const char*, const char*, const char*, ...) { return ok; }
bool near_(LD, LD, LD, const char*, const char*) { return true; }
bool neara(LD, LD, LD, const char*, const char*) { return true; }
static const char* g_fn = "?"; static double g_x[MAXIO]; static int g_n = 0; static long g_c = 0; static bool g_extreme = false;
static void on_death() { printf("CRASH {\"kind\":\"uninitialised-value\",\"group\":\"%s\",\"case\":%ld,\"note\":\"%s\",\"inputs\":[", g_extreme ? "msan_extreme" : "msan_domain", g_c, g_fn); for (int k = 0; k < g_n; k++) printf("%s\"%.17g\"", k ? "," : "", g_x[k]); printf("]}\n"); fflush(stdout); }
int main(int argc, char** argv) {
    long n = 20000; int shard = 0, ns = 1; long only = -1; int mode = -1;
    for (int k = 1; k + 1 < argc; k += 2) { if (!std::strcmp(argv[k], "--n")) n = atol(argv[k + 1]); else if (!std::strcmp(argv[k], "--seed")) g_seed = strtoull(argv[k + 1], nullptr, 10); else if (!std::strcmp(argv[k], "--shard")) { if (sscanf(argv[k + 1], "%d/%d", &shard, &ns) != 2) return 2; } else if (!std::strcmp(argv[k], "--case")) only = atol(argv[k + 1]); else if (!std::strcmp(argv[k], "--mode")) mode = atoi(argv[k + 1]); else return 2; }
    __msan_set_death_callback(on_death);
    auto& F = fns(); unsigned long long calls = 0, bytes = 0;
    for (int e = 0; e < 2; e++) { if (mode >= 0 && e != mode) continue; g_extreme = e;
        for (long c = only >= 0 ? only : shard; c < (only >= 0 ? only + 1 : n); c += ns) {
            const Fn& f = F[(size_t) c % F.size()]; Rng r(mix(mix(g_seed, hash_str(f.name)), (uint64_t) c * 2 + (uint64_t) e)); double x[MAXIO] = {0}; double o[MAXIO] = {0};
            if (e) gen_extreme(r, f, x); else gen_inputs(r, f, x);
            g_fn = f.name; g_n = (int) f.in.size(); g_c = c; std::memcpy(g_x, x, sizeof g_x);
            f.sut(x, o); calls++; bytes += f.out.size() * 8;
        } }
    printf("MSAN {\"calls\":%llu,\"functions\":%zu}\n", calls, F.size()); (void) bytes;
    return calls ? 0 : 2;
}
