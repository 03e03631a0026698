// Native side of the harness API: replays one assignment of the symbolic inputs on the compiled code.
// usage: replay TEST VALUES-FILE   exit 0 all assertions held, 1 an assertion failed, 77 an assumption did not hold
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <random>
#include <string>
static std::map<std::string, double> vals;
static std::map<std::string, int> counts;
static std::mt19937_64 rng(12345);
static bool fpmode, tame = true, nanok;
static double tol = 1e-8;
static bool lookup(const char* name, double& x) {
    int c = counts[name]++;
    std::string n = c ? std::string(name) + "#" + std::to_string(c) : name;
    for (char& ch : n) if (ch == ' ') ch = '_';   // as the values file has it
    auto it = vals.find(n);
    if (it == vals.end()) return false;
    x = it->second;
    return true;
}
static double uni(double a, double b) { return a + (b - a) * (double)(rng() >> 11) / 9007199254740992.0; }
static void fail(const char* id) { std::printf("FAIL %s\n", id); std::fflush(stdout); std::_Exit(1); }
extern "C" {
double vp_double(const char* n) { double x; return lookup(n, x) ? x : uni(-2, 2); }
double vp_range(const char* n, double lo, double hi) {
    double x; if (!lookup(n, x)) x = uni(lo, hi);
    if (!(x >= lo && x <= hi)) std::_Exit(77);
    return x;
}
double vp_pos(const char* n) { double x; if (!lookup(n, x)) x = uni(0.05, 3); if (!(x > 0) || std::isinf(x)) std::_Exit(77); return x; }
double vp_nonneg(const char* n) { double x; if (!lookup(n, x)) x = uni(0, 3); if (!(x >= 0) || std::isinf(x)) std::_Exit(77); return x; }
int vp_int(const char* n, int lo, int hi) { double x; if (!lookup(n, x)) x = lo + (double)(rng() % (unsigned long)(hi - lo + 1)); if (x < lo || x > hi) std::_Exit(77); return (int)x; }
unsigned vp_u32(const char* n) { double x; return lookup(n, x) ? (unsigned)x : (unsigned)rng(); }
bool vp_bool(const char* n) { double x; return lookup(n, x) ? x != 0 : rng() & 1; }
void vp_assume(bool c) { if (!c) std::_Exit(77); }
void vp_assert(bool c, const char* id) { if (!c) fail(id); }
void vp_assert_eq(double a, double b, const char* id) {
    if (a == b || (std::isnan(a) && std::isnan(b))) return;
    if (fpmode) { std::printf("%.17g vs %.17g\n", a, b); fail(id); }
    if (std::isnan(a) || std::isnan(b)) { if (nanok || tame) { std::printf("%.17g vs %.17g\n", a, b); fail(id); } return; }
    if (std::isinf(a) || std::isinf(b)) return;
    if (std::fabs(a - b) > tol * (1 + std::fabs(a) + std::fabs(b))) { std::printf("%.17g vs %.17g\n", a, b); fail(id); }
}
void vp_assert_le(double a, double b, const char* id) {
    if (a <= b) return;
    if (fpmode) { std::printf("%.17g > %.17g\n", a, b); fail(id); }
    if (std::isnan(a) || std::isnan(b)) { if (nanok || tame) fail(id); return; }
    if (std::isinf(a) && std::isinf(b)) return;
    if (a - b > tol * (1 + std::fabs(a) + std::fabs(b))) { std::printf("%.17g > %.17g\n", a, b); fail(id); }
}
static unsigned ent[64]; static int nent;
unsigned vp_native_entropy() asm("_ZNSt13random_device9_M_getvalEv");   // replaces the operating system's entropy source
unsigned vp_native_entropy() { unsigned x = vp_u32("random_device"); if (nent < 64) ent[nent] = x; ++nent; return x; }
unsigned vp_entropy(int i) { return i < nent ? ent[i] : 0; }
int vp_entropy_count() { return nent; }
void vp_reach(const char*) {}
double vp_exact(double x) { return x; }
int vp_tier() { const char* t = std::getenv("VERIF_TIER"); return t && !std::strcmp(t, "thorough"); }
void* vp_symbolic_engine() { return nullptr; }
__attribute__((weak)) double vp_draw(int kind, double a, double b) {
    if (kind == 0) return a + b * vp_double("z");
    if (kind == 1) return vp_nonneg("e") / a;
    if (kind == 2) return b * vp_nonneg("g");
    if (kind == 3) return a + (b - a) * vp_range("u", 0, 1);
    return vp_int("n", 0, 1);
}
__attribute__((weak)) double vp_qrng(int, unsigned, unsigned long) { return vp_range("q", 0, 1); }
}
struct Entry { const char* name; void (*f)(); };
extern Entry vp_entries[];
int main(int argc, char** argv) {
    if (argc < 3) return 64;
    fpmode = std::getenv("VP_MODE") && !std::strcmp(std::getenv("VP_MODE"), "fp");
    nanok = std::getenv("VP_NAN") != nullptr;
    if (std::getenv("VP_TOL")) tol = std::atof(std::getenv("VP_TOL"));
    if (std::getenv("VP_SEED")) rng.seed(std::atol(std::getenv("VP_SEED")));
    std::ifstream f(argv[2]);
    std::string n, v;
    while (f >> n >> v) {
        double x = std::strtod(v.c_str(), nullptr);
        vals[n] = x;
        if (!(std::fabs(x) <= 100)) tame = false;
    }
    for (Entry* e = vp_entries; e->name; ++e)
        if (!std::strcmp(e->name, argv[1])) { e->f(); std::printf("PASS\n"); return 0; }
    return 65;
}
