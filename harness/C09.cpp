// C09 variance gamma
//@ mode real
//@ bound 1..3 steps (5 thorough); every positive spot, maturity and nu, every theta, rate, volatility, coupon with 1-theta*nu-sigma^2*nu/2 > 0; every value of the normal and gamma draws; the volatility also changed after construction; also paths of every length 1..32 (64 thorough) and 52, 100, 252, 260 steps, each step compared with the one-step model; one model simulated three times (two maturities, other draws, other data) compared with new models
//@ assume arithmetic is exact (real numbers) in the law tests; the samplers of the standard library are replaced by arbitrary draws whose parameters are checked
#include "models.h"
#include "model/variance_gamma_model.h"
VP_MODELS_DRAW
static void vg(bool coupon, bool changed) {
    World w(coupon);
    int n = vp_int("steps", 1, vp_tier() ? 5 : 3);
    double nu = vp_pos("nu"), theta = vp_double("theta");
    vp_assume(1 - theta * nu - w.v * w.v * nu / 2 > 0);
    VarianceGammaModel model("A", w.md, std::make_shared<Gen>(n), nu, theta);
    if (changed) {
        w.v = vp_nonneg("sigma2"); w.r = vp_double("r2"); w.S = vp_pos("S2");
        vp_assume(1 - theta * nu - w.v * w.v * nu / 2 > 0);
        w.md->updateStockSigma("A", w.v); w.md->setR(w.r); w.md->updateStockPrice("A", w.S);
    }
    double q[8];
    for (int k = 0; k < n; ++k) { q[k] = vp_pos(nm("rootg", k).c_str()); scr.g[k] = q[k] * q[k]; }
    auto sim = [&] { auto p = model.simulatePrices(w.T); vp_assert((int)p.size() == n, "one price per step"); for (double x : p) vp_assert(x > 0, "positive price"); return logret(p, w.S); };
    Affine a = affine(sim, 2 * n);
    vp_reach("simulated");
    vp_assert(scr.ng == n, "one gamma draw per step");
    double dt = w.T / n, omega = std::log(1 - theta * nu - w.v * w.v * nu / 2) / nu;
    for (int j = 0; j < n; ++j) {
        vp_assert_eq(scr.ga[j] * scr.gb[j], dt, "mean of the gamma clock is dt");
        vp_assert_eq(scr.ga[j] * scr.gb[j] * scr.gb[j], nu * dt, "variance of the gamma clock is nu dt");
        vp_assert_eq(a.m[j], (w.r - w.c + omega) * dt + theta * scr.g[j], "mean of the log-return given the clock");
        for (int i = 0; i <= j; ++i) vp_assert_eq(cov(a, i, j), i == j ? w.v * w.v * scr.g[j] : 0.0, i == j ? "variance of the log-return given the clock" : "independent steps");
    }
    scr.rewind(); auto p = model.simulatePrices(w.T);
    scr.rewind(); vp_assert_eq(model.simulatePriceAtMaturity(w.T), p.back(), "maturity price is the last price of a path");
}
VP_TEST(law) { vg(false, false); }
VP_TEST(law_coupon) { vg(true, false); }
VP_TEST(law_after_update) { vg(true, true); }
VP_TEST(vg_long) {
    World w(true); int n = longsteps(); script_normals(n);
    double nu = vp_pos("nu"), theta = vp_double("theta");
    vp_assume(1 - theta * nu - w.v * w.v * nu / 2 > 0);
    for (int k = 0; k < n; ++k) { double q = vp_pos(nm("rootg", k).c_str()); scr.g[k] = q * q; }
    VarianceGammaModel model("A", w.md, std::make_shared<Gen>(n), nu, theta), single("A", w.md, std::make_shared<Gen>(1), nu, theta);
    auto p = model.simulatePrices(w.T);
    homogeneous(w, p, n, [&](int) { return &single; });
}
VP_TEST(vg_in_turn) {
    World w(vp_bool("coupon")); int n = vp_int("steps", 1, 3);
    double nu = vp_pos("nu"), theta = vp_double("theta"), g[3][3];
    vp_assume(1 - theta * nu - w.v * w.v * nu / 2 > 0);
    for (int r = 0; r < 3; ++r) for (int k = 0; k < n; ++k) { double q = vp_pos(nm(r == 0 ? "ga" : r == 1 ? "gb" : "gc", k).c_str()); g[r][k] = q * q; }
    in_turn(w, n, [&] { return std::make_unique<VarianceGammaModel>("A", w.md, std::make_shared<Gen>(n), nu, theta); }, [&](int r) { for (int k = 0; k < n; ++k) scr.g[k] = g[r][k]; });
}
VP_TEST(domain) {
    World w(false);
    double nu = vp_double("nu"), theta = vp_double("theta");
    int o = vp_outcome<std::invalid_argument>([&] { VarianceGammaModel m("A", w.md, std::make_shared<Gen>(1), nu, theta); vp_reach("accepted"); });
    vp_assert(o == (nu > 0 && 1 - theta * nu - w.v * w.v * nu / 2 > 0 ? 0 : 1), "accepted iff nu > 0 and the mean is finite");
}
