// C12 pseudo-random generators: seeded Mersenne Twister, one stream, valid dimension
//@ mode real
//@ bound every 32-bit seed and entropy word, dimensions 1..3 and every 32-bit dimension for the constructor; three draws of two engine words each, and 700 draws (1300 thorough) in a row; two unseeded generators; every pair of seeds
//@ assume std::mt19937 is executed as it is (libstdc++'s code, symbolic state)
#include "vp.h"
#include <vector>
#include <memory>
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
using namespace OptionPricer;
struct D final : Distribution {
    int words; double v; mutable std::vector<unsigned> seen; mutable int calls = 0;
    explicit D(int w, double v_ = 0) : words(w), v(v_) {}
    double inv_cdf(const double&) const override { vp_assert(false, "a pseudo-random generator samples"); return 0; }
    double operator()(std::mt19937& g) const override { ++calls; for (int i = 0; i < words; ++i) seen.push_back((unsigned)g()); return v; }
};
static void stream(const NumberGenerator& g, unsigned seed) {
    std::mt19937 ref(seed);
    double a = vp_double("a"), b = vp_double("b");
    D d(2, a), e(1, b);
    vp_assert_eq(g(d), a, "the distribution's sample is returned");
    vp_assert_eq(g(e), b, "the distribution's sample is returned");
    vp_assert_eq(g(d), a, "the distribution's sample is returned");
    vp_assert(d.calls == 2 && e.calls == 1, "one sample per draw");
    unsigned w[5]; for (auto& x : w) x = (unsigned)ref();
    vp_assert(d.seen[0] == w[0] && d.seen[1] == w[1], "stream of the seeded Mersenne Twister");
    vp_assert(e.seen[0] == w[2], "one single stream for all distributions");
    vp_assert(d.seen[2] == w[3] && d.seen[3] == w[4], "consecutive draws advance the stream");
    vp_reach("stream");
}
VP_TEST(seeded) { unsigned s = vp_u32("seed"); int dim = vp_int("dim", 1, 3); PseudoRandomNumberGenerator g(dim, s); vp_assert((int)g.getDim() == dim, "reported dimension"); stream(g, s); }
VP_TEST(unseeded) { int dim = vp_int("dim", 1, 3); PseudoRandomNumberGenerator g(dim); vp_assert((int)g.getDim() == dim, "reported dimension"); vp_assert(vp_entropy_count() >= 1, "the entropy source is used"); stream(g, vp_entropy(0)); }
VP_TEST(unseeded_twice) {   // every unseeded generator takes its own seed from the entropy source
    int d1 = 1, d2 = 2;
    PseudoRandomNumberGenerator g(d1); unsigned before = vp_entropy_count();
    PseudoRandomNumberGenerator h(d2);
    vp_assert(before >= 1 && vp_entropy_count() > before, "the entropy source is used for each generator");
    D a(1), b(1); g(a); h(b); g(a); h(b);
    std::mt19937 ra(vp_entropy(0)), rb(vp_entropy(before));
    for (int i = 0; i < 2; ++i) { vp_assert(a.seen[i] == (unsigned)ra(), "stream of the first entropy seed"); vp_assert(b.seen[i] == (unsigned)rb(), "stream of the second entropy seed"); }
    vp_reach("unseeded twice");
}
VP_TEST(seeds) {   // two generators of any two seeds used in turn: each keeps its own stream
    unsigned s = vp_u32("seed"), t = vp_u32("seed2");
    PseudoRandomNumberGenerator g(2, s), h(2, t);
    D a(1), b(1); g(a); h(b); g(a); h(b);
    std::mt19937 ra(s), rb(t);
    for (int i = 0; i < 2; ++i) { vp_assert(a.seen[i] == (unsigned)ra(), "stream of the first seed"); vp_assert(b.seen[i] == (unsigned)rb(), "stream of the second seed"); }
    vp_reach("seeds");
}
VP_TEST(long_stream) {   // the stream goes on over several blocks of the Mersenne Twister
    unsigned s = vp_u32("seed"); int n = vp_tier() ? 1300 : 700;
    PseudoRandomNumberGenerator g(52, s);
    std::mt19937 ref(s);
    D d(1);
    for (int i = 0; i < n; ++i) { (void)g(d); vp_assert((int)d.seen.size() == i + 1 && d.seen[i] == (unsigned)ref(), "every draw takes the next number of the stream"); }
    vp_reach("long stream");
}
VP_TEST(twins) {
    unsigned s = vp_u32("seed");
    PseudoRandomNumberGenerator g(2, s), h(3, s);
    D a(1), b(1);
    g(a); g(a); h(b); g(a); h(b); h(b);
    vp_reach("twins");
    for (int i = 0; i < 3; ++i) vp_assert(a.seen[i] == b.seen[i], "equal seeds give equal streams");
}
VP_TEST(dimension) {
    unsigned dim = vp_u32("dim"); bool seeded = vp_bool("seeded");
    int oc = vp_outcome<std::invalid_argument>([&] {
        std::unique_ptr<NumberGenerator> g = seeded ? std::make_unique<PseudoRandomNumberGenerator>(dim, 7u) : std::make_unique<PseudoRandomNumberGenerator>(dim);
        vp_assert(g->getDim() == dim, "reported dimension");
    });
    vp_assert(oc == (dim == 0 ? 1 : 0), "dimension zero rejected, every other accepted");
    vp_reach("constructed");
}
VP_TEST(quasi_dimension) {
    unsigned dim = vp_int("dim", 0, 3); bool seeded = vp_bool("seeded"), sobol = vp_bool("sobol");
    int oc = vp_outcome<std::invalid_argument>([&] {
        std::unique_ptr<NumberGenerator> g;
        if (sobol) g = seeded ? std::make_unique<SobolGenerator>(dim, 7u) : std::make_unique<SobolGenerator>(dim);
        else g = seeded ? std::make_unique<FaureGenerator>(dim, 7u) : std::make_unique<FaureGenerator>(dim);
        vp_assert(g->getDim() == dim, "reported dimension");
    });
    vp_assert(oc == (dim == 0 ? 1 : 0), "dimension zero rejected, every other accepted");
    vp_reach("constructed");
}
