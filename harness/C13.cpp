// C13 distributions: the sampler is invoked once with the law's parameters; invalid parameters and missing inverses rejected
//@ mode fp
//@ bound every double for every parameter (bit-precise); two samples per object; two objects of any two kinds used alternately; the sampled value any double (Poisson: 0..3)
//@ assume the samplers of the standard library are replaced by arbitrary draws whose parameters are checked
#include "vp.h"
#include <memory>
#include "random/distribution/normal_distrib.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/continuous_uniform_distrib.h"
using namespace OptionPricer;
static int draws, kind_; static double pa, pb, out;
extern "C" double vp_draw(int kind, double a, double b) { ++draws; kind_ = kind; pa = a; pb = b; return out; }
enum { NORMAL, EXPO, GAMMA, UNIF, POISSON, STD };
static std::unique_ptr<Distribution> make(int k, double a, double b) {
    switch (k) {
    case NORMAL: return std::make_unique<NormalDistribution>(a, b);
    case EXPO: return std::make_unique<ExponentialDistribution>(a);
    case GAMMA: return std::make_unique<GammaDistribution>(a, b);
    case UNIF: return std::make_unique<ContinuousUniformDistribution>(a, b);
    case POISSON: return std::make_unique<PoissonDistribution>(a);
    default: return std::make_unique<StandardNormalDistribution>();
    }
}
static bool valid(int k, double a, double b) {
    switch (k) {
    case NORMAL: return b > 0;
    case EXPO: case POISSON: return a > 0;
    case GAMMA: return a > 0 && b > 0;
    case UNIF: return a < b;
    default: return true;
    }
}
static void sample(int k) {
    double a = vp_double("a"), b = vp_double("b");
    vp_assume(valid(k, a, b));
    if (k == NORMAL) vp_assume(a == a);
    auto d = make(k, a, b);
    std::mt19937* g = nullptr; static std::mt19937 mt; g = &mt;
    draws = 0;
    for (int i = 0; i < 2; ++i) {
        out = k == POISSON ? vp_int(i ? "n1" : "n0", 0, 3) : vp_double(i ? "x1" : "x0");
        double x = (*d)(*g);
        vp_assert(draws == i + 1, "one sample per draw");
        vp_assert(kind_ == (k == STD ? NORMAL : k), "the law of the distribution");
        vp_assert_eq(x, out, "the sampled value is returned");
        double ea = k == STD ? 0.0 : a, eb = k == STD ? 1.0 : k == NORMAL || k == UNIF ? b : k == GAMMA ? 1.0 / b : 0.0;
        vp_assert(pa == ea, "first parameter of the law");
        vp_assert(pb == eb, "second parameter of the law");
    }
    vp_reach("sampled");
}
VP_TEST(normal) { sample(NORMAL); }
VP_TEST(exponential) { sample(EXPO); }
VP_TEST(gamma_) { sample(GAMMA); }
VP_TEST(uniform) { sample(UNIF); }
VP_TEST(poisson) { sample(POISSON); }
VP_TEST(standard) { sample(STD); }
VP_TEST(in_turn) {   // two distributions of any two kinds used alternately
    int k1 = vp_int("law1", 0, 5), k2 = vp_int("law2", 0, 5);
    double a1 = vp_double("a1"), b1 = vp_double("b1"), a2 = vp_double("a2"), b2 = vp_double("b2");
    vp_assume(valid(k1, a1, b1)); vp_assume(valid(k2, a2, b2));
    if (k1 == NORMAL) vp_assume(a1 == a1);
    if (k2 == NORMAL) vp_assume(a2 == a2);
    auto d1 = make(k1, a1, b1), d2 = make(k2, a2, b2);
    static std::mt19937 mt; draws = 0;
    for (int i = 0; i < 4; ++i) {
        int k = i % 2 ? k2 : k1; double a = i % 2 ? a2 : a1, b = i % 2 ? b2 : b1;
        out = k == POISSON ? (double)(i % 3) : 0.25 * i;
        double x = i % 2 ? (*d2)(mt) : (*d1)(mt);
        vp_assert(draws == i + 1, "one sample per draw"); vp_assert(kind_ == (k == STD ? NORMAL : k), "the law of the distribution"); vp_assert_eq(x, out, "the sampled value is returned");
        double ea = k == STD ? 0.0 : a, eb = k == STD ? 1.0 : k == NORMAL || k == UNIF ? b : k == GAMMA ? 1.0 / b : 0.0;
        vp_assert(pa == ea, "first parameter of the law"); vp_assert(pb == eb, "second parameter of the law");
    }
    vp_reach("sampled");
}
VP_TEST(validation) {
    int k = vp_int("law", 0, 5); double a = vp_double("a"), b = vp_double("b");
    vp_assert(vp_outcome<std::invalid_argument>([&] { (void)make(k, a, b); }) == (valid(k, a, b) ? 0 : 1), "invalid parameters rejected, valid ones accepted");
    vp_reach("constructed");
}
VP_TEST(inverse) {
    int k = vp_int("law", 0, 4); double q = vp_double("q");
    auto d = make(k, 1.0, 2.0);
    vp_assert(vp_outcome<std::logic_error>([&] { (void)d->inv_cdf(q); }) == 1, "a missing inverse CDF throws logic_error");
    vp_reach("inverse");
}
VP_TEST(default_uniform) {
    ContinuousUniformDistribution d; static std::mt19937 mt; out = vp_double("x"); draws = 0;
    vp_assert_eq(d(mt), out, "the sampled value is returned");
    vp_assert(draws == 1 && kind_ == UNIF && pa == 0 && pb == 1, "uniform on [0,1] by default");
    vp_reach("sampled");
}
