// C11 quasi-random streams: every coordinate once, in order, scaled to [0,1]
//@ mode real
//@ bound dimensions 1..6 (8 thorough), three consecutive points (5 thorough) after the start, every 32-bit seed, every coordinate value in the sequence's range; also dimensions up to 65 (252 thorough) with three points and up to 129 points (260) in dimensions 1..4; one stream of 4200 fixed points in dimension 1 from every seed; two generators of dimensions 1..4 used in turn for 5 draws (8)
//@ assume Boost's sobol and faure engines are replaced by an arbitrary sequence of coordinates with the same interface (k-th coordinate a fixed value, seed(s) starting at point s)
#include "vp.h"
#include <memory>
#include <string>
#include <vector>
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
using namespace OptionPricer;
static std::string label(const char* b, int i) { std::string d; do { d.insert(d.begin(), char('0' + i % 10)); i /= 10; } while (i); return b + d; }
static unsigned seed, dim; static int family; static double table[4200]; static int total; static bool lazy, pair; static unsigned dim2; static double table2[64];
static const double top[2] = {18446744073709551615.0, 1.0};
extern "C" double vp_qrng(int f, unsigned d, unsigned long k) {
    if (pair) {
        vp_assert(f == family && (d == dim || d == dim2), "the sequence of the requested family and dimension");
        unsigned long off = k - (unsigned long)seed * d;
        vp_assert(off < (unsigned long)total, "the sequence is read from the seeded point, without skipping");
        vp_assume(off < (unsigned long)total);
        return d == dim ? table[off] : table2[off];
    }
    vp_assert(f == family && d == dim, "the sequence of the requested family and dimension");
    if (lazy) { vp_assert(vp_entropy_count() >= 1, "seeded from the entropy source"); seed = vp_entropy(0); }
    unsigned long off = k - (unsigned long)seed * dim;
    vp_assert(off < (unsigned long)total, "the sequence is read from the seeded point, without skipping");
    vp_assume(off < (unsigned long)total);
    return table[off];
}
struct D final : Distribution {
    mutable std::vector<double> seen; std::vector<double> out;
    double inv_cdf(const double& q) const override { seen.push_back(q); return out[seen.size() - 1]; }
    double operator()(std::mt19937&) const override { vp_assert(false, "a quasi-random generator uses the inverse CDF"); return 0; }
};
static std::unique_ptr<NumberGenerator> gen() {
    if (family == 0) return std::make_unique<SobolGenerator>(dim, seed);
    return std::make_unique<FaureGenerator>(dim, seed);
}
static void setup(int f) {
    family = f; dim = vp_int("dim", 1, vp_tier() ? 8 : 6); seed = vp_u32("seed");
    int points = vp_tier() ? 5 : 3;
    total = (points + 2) * dim;
    for (int i = 0; i < total; ++i) table[i] = vp_range((std::string("q") + char('0' + i / 10) + char('0' + i % 10)).c_str(), 0, top[f]);
}
static void stream(int f) {
    setup(f);
    auto g = gen();
    vp_assert(g->getDim() == dim, "reported dimension");
    D d; int n = total - 2 * dim;
    for (int i = 0; i < n; ++i) d.out.push_back(vp_double((std::string("o") + char('0' + i / 10) + char('0' + i % 10)).c_str()));
    for (int i = 0; i < n; ++i) {
        double x = (*g)(d);
        vp_assert((int)d.seen.size() == i + 1, "one quantile per draw");
        vp_assert_eq(d.seen[i], table[i] / top[f], "i-th draw is coordinate i mod dim of point i div dim, scaled");
        vp_assert_eq(x, d.out[i], "the distribution's quantile is returned");
        vp_assert(d.seen[i] >= 0 && d.seen[i] <= 1, "in [0,1]");
    }
    vp_reach("stream");
}
VP_TEST(sobol_stream) { stream(0); }
VP_TEST(faure_stream) { stream(1); }
static void longer(int f, unsigned dimension, int points) {   // high dimensions and many points
    family = f; dim = dimension; seed = vp_u32("seed"); total = points * dim;
    for (int i = 0; i < total; ++i) table[i] = vp_range(label("q", i).c_str(), 0, top[f]);
    auto g = gen();
    vp_assert(g->getDim() == dim, "reported dimension");
    D d; d.out.assign(total, 0.0);
    for (int i = 0; i < total; ++i) {
        (void)(*g)(d);
        vp_assert((int)d.seen.size() == i + 1, "one quantile per draw");
        vp_assert_eq(d.seen[i], table[i] / top[f], "i-th draw is coordinate i mod dim of point i div dim, scaled, in long streams");
    }
    vp_reach("longer");
}
static unsigned dims() { static const unsigned s[] = {7, 8, 9, 10, 12, 16, 17, 31, 32, 33, 50, 64, 65, 100, 127, 128, 252}; return s[vp_int("dims", 0, vp_tier() ? 16 : 13)]; }
static int pointcount() { static const int s[] = {8, 16, 33, 64, 100, 129, 260}; return s[vp_int("points", 0, vp_tier() ? 6 : 5)]; }
VP_TEST(sobol_wide) { longer(0, dims(), 3); }
VP_TEST(faure_wide) { longer(1, dims(), 3); }
VP_TEST(sobol_long) { longer(0, vp_int("dim", 1, 4), pointcount()); }
VP_TEST(faure_long) { longer(1, vp_int("dim", 1, 4), pointcount()); }
static void thousands(int f) {   // one long one-dimensional stream, the coordinates fixed
    family = f; dim = 1; seed = vp_u32("seed"); total = 4200;
    for (int i = 0; i < total; ++i) table[i] = vp_exact(f ? ((i * 37) % 1024) / 1024.0 : ((i * 37) % 1024) * 18014398509481984.0);
    auto g = gen(); D d; d.out.assign(total, 0.0);
    for (int i = 0; i < total; ++i) { (void)(*g)(d); vp_assert_eq(d.seen[i], table[i] / top[f], "i-th draw of a very long stream is point i"); }
    vp_reach("thousands");
}
VP_TEST(sobol_thousands) { thousands(0); }
VP_TEST(faure_thousands) { thousands(1); }
static void twins(int f) {   // two generators of the same dimension and seed deliver the same stream, also interleaved
    setup(f);
    auto g = gen(), h = gen();
    D a, b; int n = dim + 1;
    for (int i = 0; i < n; ++i) { a.out.push_back(0); b.out.push_back(0); }
    for (int i = 0; i < n; ++i) (void)(*g)(a);
    for (int i = 0; i < n; ++i) { (void)(*h)(b); vp_assert_eq(a.seen[i], b.seen[i], "equal seeds give equal streams"); }
    vp_reach("twins");
}
VP_TEST(sobol_twins) { twins(0); }
VP_TEST(faure_twins) { twins(1); }
static void interleaved(int f) {   // two generators used in turn, whatever their seeds and dimensions: each delivers its own sequence
    family = f; pair = true; dim = vp_int("dim", 1, 4); dim2 = vp_int("dim2", 1, 4); seed = vp_u32("seed"); vp_assume(seed < 0xfffffff0u);
    unsigned ahead = vp_int("ahead", 0, 2), turns = vp_tier() ? 8 : 5; total = 32;
    for (int i = 0; i < total; ++i) {
        table[i] = vp_range((std::string("q") + char('0' + i / 10) + char('0' + i % 10)).c_str(), 0, top[f]);
        table2[i] = vp_range((std::string("r") + char('0' + i / 10) + char('0' + i % 10)).c_str(), 0, top[f]);
    }
    std::unique_ptr<NumberGenerator> g, h;
    if (f == 0) { g = std::make_unique<SobolGenerator>(dim, seed); h = std::make_unique<SobolGenerator>(dim2, seed + ahead); }
    else { g = std::make_unique<FaureGenerator>(dim, seed); h = std::make_unique<FaureGenerator>(dim2, seed + ahead); }
    vp_assert(g->getDim() == dim && h->getDim() == dim2, "reported dimension");
    D a, b; a.out.assign(turns, 0.0); b.out.assign(turns, 0.0);
    const double* other = dim2 == dim ? table : table2;
    for (unsigned i = 0; i < turns; ++i) {
        (void)(*g)(a); (void)(*h)(b);
        vp_assert_eq(a.seen[i], table[i] / top[f], "first of two generators: its own sequence");
        vp_assert_eq(b.seen[i], other[ahead * dim2 + i] / top[f], "second of two generators: its own sequence");
    }
    vp_reach("interleaved");
}
VP_TEST(sobol_interleaved) { interleaved(0); }
VP_TEST(faure_interleaved) { interleaved(1); }
VP_TEST(unseeded) {   // seeded from the entropy source: the dimension and the stream's order are the same
    family = vp_int("family", 0, 1); dim = vp_int("dim", 1, 3); total = 4 * dim;
    for (int i = 0; i < total; ++i) table[i] = vp_range((std::string("q") + char('0' + i / 10) + char('0' + i % 10)).c_str(), 0, top[family]);
    lazy = true;   // the seed is the entropy word, known once it was drawn
    std::unique_ptr<NumberGenerator> g;
    if (family == 0) g = std::make_unique<SobolGenerator>(dim); else g = std::make_unique<FaureGenerator>(dim);
    vp_assert(g->getDim() == dim, "reported dimension");
    D d; d.out.assign(2 * dim, 0.0);
    for (unsigned i = 0; i < 2 * dim; ++i) { (void)(*g)(d); vp_assert_eq(d.seen[i], table[i] / top[family], "i-th draw is coordinate i mod dim of point i div dim, scaled"); }
    vp_reach("unseeded");
}
