// C07 GBM and Heston: risk-neutral law of every path
//@ mode real
//@ bound GBM paths of 1..4 steps (6 in the thorough tier), Heston one step fewer; every positive spot and maturity, every rate, volatility >= 0, coupon in [0,1] or none; every value of the normal draws; Heston: every admissible parameter set and an arbitrary variance path (also negative values); also paths of every length 1..32 (64 thorough) and 52, 100, 252, 260 steps, each step compared with the one-step model; one model simulated three times (two maturities, other draws, other data) compared with new models
//@ assume arithmetic is exact (real numbers); the samplers of the standard library are replaced by arbitrary standardised draws
#include "models.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/discretization/base_cir_discretization.h"
VP_MODELS_DRAW
static int maxsteps() { return vp_tier() ? 6 : 4; }
VP_TEST(gbm_law) {
    World w(vp_bool("coupon"));
    int n = vp_int("steps", 1, maxsteps());
    GeometricBrownianMotionModel model("A", w.md, std::make_shared<Gen>(n));
    auto sim = [&] { auto p = model.simulatePrices(w.T); vp_assert((int)p.size() == n, "one price per step"); return logret(p, w.S); };
    Affine a = affine(sim, 2 * n);
    vp_reach("simulated");
    double dt = w.T / n;
    for (int j = 0; j < n; ++j) {
        vp_assert_eq(a.m[j], (w.r - w.c - w.v * w.v / 2) * dt, "mean of the log-return");
        for (int i = 0; i <= j; ++i) vp_assert_eq(cov(a, i, j), i == j ? w.v * w.v * dt : 0.0, i == j ? "variance of the log-return" : "independent steps");
    }
}
VP_TEST(gbm_paths) {
    World w(true);
    int n = vp_int("steps", 1, maxsteps());
    auto gen = std::make_shared<Gen>(n);
    GeometricBrownianMotionModel model("A", w.md, gen);
    vp_assert(model.getSteps() == (unsigned)n, "steps = dimension"); vp_assert(model.getGenerator() == gen, "generator");
    for (int k = 0; k < n; ++k) scr.z[k] = vp_double(nm("z", k).c_str());
    auto p = model.simulatePrices(w.T);
    for (double x : p) vp_assert(x > 0, "positive price");
    vp_assert(scr.nz == n && gen->calls == n, "one fresh draw per step through the generator");
    scr.rewind();
    vp_assert_eq(model.simulatePriceAtMaturity(w.T), p.back(), "maturity price is the last price of a path");
    vp_reach("simulated");
}
VP_TEST(gbm_long) {
    World w(true); int n = longsteps(); script_normals(n);
    GeometricBrownianMotionModel model("A", w.md, std::make_shared<Gen>(n)), single("A", w.md, std::make_shared<Gen>(1));
    auto p = model.simulatePrices(w.T);
    homogeneous(w, p, n, [&](int) { return &single; });
}
struct Cir final : CIRDiscretization {   // arbitrary variance path, records the shocks
    mutable std::vector<double> shocks; std::vector<double> V; mutable std::vector<double> seen; mutable double par[4];
    void update(double& v, const double& dt, const double& kappa, const double& theta, const double& sv, const double& z) const override {
        seen.push_back(v); v = V[shocks.size()]; shocks.push_back(z); par[0] = dt; par[1] = kappa; par[2] = theta; par[3] = sv;
    }
};
static void heston(bool coupon) {
    World w(coupon);
    int n = vp_int("steps", 1, maxsteps() - 1);
    double kappa = vp_pos("kappa"), theta = vp_nonneg("theta"), sv = vp_nonneg("sigma_v"), rho = vp_range("rho", -1, 1), v0 = vp_nonneg("v0");
    auto cir = std::make_shared<Cir>();
    for (int k = 0; k < n; ++k) cir->V.push_back(vp_double(nm("V", k + 1).c_str()));
    auto gen = std::make_shared<Gen>(n);
    HestonModel model("A", w.md, gen, kappa, theta, sv, rho, v0, cir);
    auto sim = [&] {
        cir->shocks.clear(); cir->seen.clear();
        auto p = model.simulatePrices(w.T);
        vp_assert((int)p.size() == n, "one price per step");
        vp_assert((int)cir->shocks.size() == n, "one variance update per step");
        auto x = logret(p, w.S);
        for (double q : p) vp_assert(q > 0, "positive price");
        for (double z : cir->shocks) x.push_back(z);
        return x;
    };
    Affine a = affine(sim, 2 * n);
    vp_reach("simulated");
    double dt = w.T / n;
    vp_assert_eq(cir->par[0], dt, "time step of the variance"); vp_assert_eq(cir->par[1], kappa, "kappa"); vp_assert_eq(cir->par[2], theta, "theta"); vp_assert_eq(cir->par[3], sv, "sigma_v");
    for (int j = 0; j < n; ++j) {
        double V = j ? cir->V[j - 1] : v0, Vp = V > 0 ? V : 0;
        vp_assert_eq(cir->seen[j], V, "variance advanced from the current variance");
        vp_assert_eq(a.m[j], (w.r - w.c - Vp / 2) * dt, "mean of the log-return");
        vp_assert_eq(a.m[n + j], 0, "mean of the variance shock");
        vp_assert_eq(cov(a, j, j), Vp * dt, "variance of the log-return");
        vp_assert_eq(cov(a, n + j, n + j), 1, "variance of the variance shock");
        vp_assert_eq(cov(a, j, n + j), rho * std::sqrt(Vp * dt), "correlation with the variance shock");
        for (int i = 0; i < j; ++i) { vp_assert_eq(cov(a, i, j), 0, "independent steps"); vp_assert_eq(cov(a, n + i, n + j), 0, "independent variance shocks"); vp_assert_eq(cov(a, n + i, j), 0, "independent of earlier variance shocks"); vp_assert_eq(cov(a, i, n + j), 0, "independent of later variance shocks"); }
    }
    scr.rewind(); cir->shocks.clear(); cir->seen.clear();
    auto p = model.simulatePrices(w.T);
    scr.rewind(); cir->shocks.clear(); cir->seen.clear();
    vp_assert_eq(model.simulatePriceAtMaturity(w.T), p.back(), "maturity price is the last price of a path");
}
VP_TEST(heston_law) { heston(false); }
VP_TEST(heston_law_coupon) { heston(true); }
VP_TEST(heston_long) {
    World w(true); int n = longsteps(); script_normals(2 * n);
    double kappa = vp_pos("kappa"), theta = vp_nonneg("theta"), sv = vp_nonneg("sigma_v"), rho = vp_range("rho", -1, 1), v0 = vp_nonneg("v0");
    auto cir = std::make_shared<Cir>(), other = std::make_shared<Cir>();
    for (int k = 0; k < n; ++k) cir->V.push_back(k % 3 == 2 ? -vp_pos(nm("V", k + 1).c_str()) : vp_pos(nm("V", k + 1).c_str()));
    other->V.assign(n, 0.0);
    HestonModel model("A", w.md, std::make_shared<Gen>(n), kappa, theta, sv, rho, v0, cir);
    auto p = model.simulatePrices(w.T);
    vp_assert((int)cir->shocks.size() == n, "one variance update per step");
    std::unique_ptr<HestonModel> one;
    homogeneous(w, p, n, [&](int j) {
        double V = j ? (j % 3 == 0 ? 0.0 : cir->V[j - 1]) : v0;
        one = std::make_unique<HestonModel>("A", w.md, std::make_shared<Gen>(1), kappa, theta, sv, rho, V, other);
        return one.get();
    });
    for (int j = 0; j < n; ++j) vp_assert_eq(cir->shocks[j], other->shocks[j], "variance shock of every step");
    for (int j = 1; j < n; ++j) vp_assert_eq(cir->seen[j], cir->V[j - 1], "variance advanced from the current variance");
}
VP_TEST(gbm_in_turn) {
    World w(vp_bool("coupon")); int n = vp_int("steps", 1, maxsteps() - 1);
    in_turn(w, n, [&] { return std::make_unique<GeometricBrownianMotionModel>("A", w.md, std::make_shared<Gen>(n)); }, [](int) {});
}
VP_TEST(heston_in_turn) {
    World w(vp_bool("coupon")); int n = vp_int("steps", 1, maxsteps() - 1);
    double kappa = vp_pos("kappa"), theta = vp_nonneg("theta"), sv = vp_nonneg("sigma_v"), rho = vp_range("rho", -1, 1), v0 = vp_nonneg("v0");
    auto cir = std::make_shared<Cir>(); double V[3][8];
    for (int r = 0; r < 3; ++r) for (int k = 0; k < n; ++k) V[r][k] = vp_pos(nm(r == 0 ? "Va" : r == 1 ? "Vb" : "Vc", k).c_str());
    in_turn(w, n, [&] { return std::make_unique<HestonModel>("A", w.md, std::make_shared<Gen>(n), kappa, theta, sv, rho, v0, cir); },
            [&](int r) { cir->V.assign(V[r], V[r] + n); cir->shocks.clear(); cir->seen.clear(); });
}
