// C10 inverse normal CDF
//@ mode real
//@ bound accuracy: every real quantile in [1e-12, 1-1e-12]; sign and antisymmetry: every quantile in (0,1); domain: every double (bit-precise), NaN and infinities included
//@ assume exact real arithmetic for the value; the true quantile is represented by piecewise polynomials of degree 10 whose error, measured at 2000 points per piece in 40-digit arithmetic, is below 1e-11; tail quantiles are written u = exp(-exp(s))
#include "vp.h"
#include "random/distribution/standard_normal_distribution.h"
#include "c10_ref.h"
using namespace OptionPricer;
//@ budget 300
static double ref(const Piece& p, double t) { double r = p.c[10]; for (int k = 9; k >= 0; --k) r = r * (t - p.m) + p.c[k]; return r; }
static void close(double v, double want, double tol) {
    vp_assert(v - want <= tol, "not above the true quantile by more than the accuracy");
    vp_assert(want - v <= tol, "not below the true quantile by more than the accuracy");
}
static void central_piece(int i, bool mirror) {
    StandardNormalDistribution d; const Piece& p = central[i];
    double t = vp_range("t", p.a, p.b);
    vp_assume(t > -0.42);
    double v = mirror ? d.inv_cdf(0.5 - t) : d.inv_cdf(0.5 + t);
    vp_reach("evaluated");
    close(mirror ? -v : v, ref(p, t), 1e-8);
    if (t < 0) vp_assert(mirror ? v > 0 : v < 0, "sign of the quantile");
}
static void tail_piece(int i, bool mirror) {
    StandardNormalDistribution d; const Piece& p = tail[i];
    double s = vp_range("s", p.a, p.b);
    double u = std::exp(-std::exp(s));
    vp_assume(u <= 0.5 - 0.42 && u > 9.9e-13);
    double q = mirror ? 1 - u : u;
    double v = d.inv_cdf(q);
    vp_reach("evaluated");
    if (mirror) s = std::log(-std::log(1 - q));   // the same s; when replayed, that of the rounded quantile
    close(mirror ? -v : v, ref(p, s), 1e-9);
    vp_assert(mirror ? v > 0 : v < 0, "sign of the quantile");
}
VP_TEST(central_0) { central_piece(0, vp_bool("mirror")); }
VP_TEST(central_1) { central_piece(1, vp_bool("mirror")); }
VP_TEST(central_2) { central_piece(2, vp_bool("mirror")); }
VP_TEST(central_3) { central_piece(3, vp_bool("mirror")); }
VP_TEST(central_4) { central_piece(4, vp_bool("mirror")); }
VP_TEST(central_5) { central_piece(5, vp_bool("mirror")); }
VP_TEST(central_6) { central_piece(6, vp_bool("mirror")); }
VP_TEST(tail_0) { tail_piece(0, vp_bool("mirror")); }
VP_TEST(tail_1) { tail_piece(1, vp_bool("mirror")); }
VP_TEST(tail_2) { tail_piece(2, vp_bool("mirror")); }
VP_TEST(tail_3) { tail_piece(3, vp_bool("mirror")); }
VP_TEST(tail_4) { tail_piece(4, vp_bool("mirror")); }
VP_TEST(tail_5) { tail_piece(5, vp_bool("mirror")); }
VP_TEST(tail_6) { tail_piece(6, vp_bool("mirror")); }
VP_TEST(far_tail) {   // beyond 1e-12 only sign and antisymmetry are claimed
    StandardNormalDistribution d;
    double s = vp_range("s", 3.3, 6.6), u = std::exp(-std::exp(s));
    vp_assume(u < 1e-11 && u > 0);
    double v = d.inv_cdf(u);
    vp_reach("evaluated");
    vp_assert(v < -6, "far below zero");
}
VP_TEST(antisymmetric) {
    StandardNormalDistribution d;
    double u = vp_range("u", 0, 1);
    vp_assume(u > 0 && u < 1);
    vp_reach("evaluated");
    vp_assert_eq(d.inv_cdf(1 - u), -d.inv_cdf(u), "antisymmetric");
}
VP_TEST(median) {
    StandardNormalDistribution d;
    vp_reach("evaluated");
    vp_assert_eq(d.inv_cdf(0.5), 0.0, "the median is 0");
}
//@ mode fp
VP_TEST(domain) {
    StandardNormalDistribution d;
    double u = vp_double("u");
    int o = vp_outcome<std::invalid_argument>([&] { d.inv_cdf(u); vp_reach("accepted"); });
    vp_assert(o == (u > 0 && u < 1 ? 0 : 1), "accepted exactly on (0,1)");
}
