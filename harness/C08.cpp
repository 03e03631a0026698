// C08 jump models: compensated risk-neutral law, admissible parameters
//@ mode real
//@ bound 1..2 steps (3 thorough), 0..2 jumps per step, and up to 33 jumps (101 thorough) in a single step; every positive spot, maturity, intensity, every rate, volatility, coupon, jump parameter; every value of the normal, uniform and exponential draws; parameter validation: every non-NaN double; also paths of every length 1..32 (64 thorough) and 52, 100, 252, 260 steps with one jump pattern, each step compared with the one-step model; one model simulated three times (two maturities, other draws, other data) compared with new models
//@ assume arithmetic is exact (real numbers) in the law tests; the samplers of the standard library are replaced by arbitrary draws whose parameters are checked
#include "models.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/bates_model.h"
#include "model/discretization/base_cir_discretization.h"
VP_MODELS_DRAW
static int maxsteps() { return vp_tier() ? 3 : 2; }
static void jumps(int n) { for (int j = 0; j < n; ++j) scr.p[j] = vp_int(nm("jumps", j).c_str(), 0, 2); }
static int manyjumps() { static const int s[] = {3, 4, 5, 8, 10, 11, 16, 17, 21, 33, 64, 101}; return s[vp_int("many", 0, vp_tier() ? 11 : 9)]; }
static void merton(bool coupon, bool many = false) {
    World w(coupon);
    int n = many ? 1 : vp_int("steps", 1, maxsteps());
    double lambda = vp_pos("lambda"), mu = vp_double("muJ"), sj = vp_pos("sigmaJ");
    if (many) scr.p[0] = manyjumps(); else jumps(n);
    MertonJumpDiffusionModel model("A", w.md, std::make_shared<Gen>(n), lambda, mu, sj);
    auto sim = [&] { auto p = model.simulatePrices(w.T); vp_assert((int)p.size() == n, "one price per step"); for (double x : p) vp_assert(x > 0, "positive price"); return logret(p, w.S); };
    Affine a = affine(sim, many ? 102 : 12);
    vp_reach("simulated");
    vp_assert(scr.np == n, "one jump count per step");
    double dt = w.T / n, comp = lambda * (std::exp(mu + sj * sj / 2) - 1);
    for (int j = 0; j < n; ++j) {
        vp_assert_eq(scr.pa[j], lambda * dt, "jump count is Poisson(lambda dt)");
        vp_assert_eq(a.m[j], (w.r - w.c - w.v * w.v / 2 - comp) * dt + scr.p[j] * mu, "mean of the log-return given the jumps");
        for (int i = 0; i <= j; ++i) vp_assert_eq(cov(a, i, j), i == j ? w.v * w.v * dt + scr.p[j] * sj * sj : 0.0, i == j ? "variance of the log-return given the jumps" : "independent steps");
    }
    scr.rewind(); auto p = model.simulatePrices(w.T);
    scr.rewind(); vp_assert_eq(model.simulatePriceAtMaturity(w.T), p.back(), "maturity price is the last price of a path");
}
VP_TEST(merton_law) { merton(false); }
VP_TEST(merton_law_coupon) { merton(true); }
VP_TEST(merton_many_jumps) { merton(true, true); }
struct Cir final : CIRDiscretization {
    std::vector<double> V; mutable std::vector<double> shocks, seen; mutable double par[4];
    void update(double& v, const double& dt, const double& kappa, const double& theta, const double& sv, const double& z) const override {
        seen.push_back(v); v = V[shocks.size()]; shocks.push_back(z); par[0] = dt; par[1] = kappa; par[2] = theta; par[3] = sv;
    }
};
static void bates(bool coupon, bool many = false) {
    World w(coupon);
    int n = many ? 1 : vp_int("steps", 1, maxsteps());
    double kappa = vp_pos("kappa"), theta = vp_nonneg("theta"), sv = vp_pos("sigma_v"), rho = vp_range("rho", -1, 1), v0 = vp_pos("v0");
    double lambda = vp_pos("lambda"), mu = vp_double("muJ"), sj = vp_pos("sigmaJ");
    if (many) scr.p[0] = manyjumps(); else jumps(n);
    auto cir = std::make_shared<Cir>();
    for (int k = 0; k < n; ++k) cir->V.push_back(vp_double(nm("V", k + 1).c_str()));
    BatesModel model("A", w.md, std::make_shared<Gen>(n), kappa, theta, sv, rho, v0, lambda, mu, sj, cir);
    auto sim = [&] {
        cir->shocks.clear(); cir->seen.clear();
        auto p = model.simulatePrices(w.T);
        vp_assert((int)p.size() == n, "one price per step"); vp_assert((int)cir->shocks.size() == n, "one variance update per step");
        auto x = logret(p, w.S);
        for (double z : cir->shocks) x.push_back(z);
        return x;
    };
    Affine a = affine(sim, many ? 103 : 12);
    vp_reach("simulated");
    double dt = w.T / n, comp = lambda * (std::exp(mu + sj * sj / 2) - 1);
    vp_assert(scr.np == n, "one jump count per step");
    vp_assert_eq(cir->par[0], dt, "time step of the variance"); vp_assert_eq(cir->par[1], kappa, "kappa"); vp_assert_eq(cir->par[2], theta, "theta"); vp_assert_eq(cir->par[3], sv, "sigma_v");
    for (int j = 0; j < n; ++j) {
        double V = j ? cir->V[j - 1] : v0, Vp = V > 0 ? V : 0;
        vp_assert_eq(cir->seen[j], V, "variance advanced from the current variance");
        vp_assert_eq(scr.pa[j], lambda * dt, "jump count is Poisson(lambda dt)");
        vp_assert_eq(a.m[j], (w.r - w.c - Vp / 2 - comp) * dt + scr.p[j] * mu, "mean of the log-return given the jumps");
        vp_assert_eq(a.m[n + j], 0, "mean of the variance shock");
        vp_assert_eq(cov(a, j, j), Vp * dt + scr.p[j] * sj * sj, "variance of the log-return given the jumps");
        vp_assert_eq(cov(a, n + j, n + j), 1, "variance of the variance shock");
        vp_assert_eq(cov(a, j, n + j), rho * std::sqrt(Vp * dt), "correlation with the variance shock");
        for (int i = 0; i < j; ++i) { vp_assert_eq(cov(a, i, j), 0, "independent steps"); vp_assert_eq(cov(a, n + i, n + j), 0, "independent variance shocks"); vp_assert_eq(cov(a, n + i, j), 0, "independent of earlier variance shocks"); vp_assert_eq(cov(a, i, n + j), 0, "independent of later variance shocks"); }
    }
}
VP_TEST(bates_law) { bates(false); }
VP_TEST(bates_law_coupon) { bates(true); }
VP_TEST(bates_many_jumps) { bates(true, true); }
static void kou(bool coupon) {
    World w(coupon);
    int n = vp_int("steps", 1, maxsteps());
    double lambda = vp_pos("lambda"), p = vp_range("p", 0, 1), e1 = vp_pos("eta1"), e2 = vp_pos("eta2");
    vp_assume(e1 > 1);
    KouModel model("A", w.md, std::make_shared<Gen>(n), lambda, p, e1, e2);
    auto sim = [&] { auto q = model.simulatePrices(w.T); vp_assert((int)q.size() == n, "one price per step"); return logret(q, w.S); };
    for (int j = 0; j < n; ++j) scr.p[j] = 0;
    Affine a = affine(sim, 4);
    double dt = w.T / n, comp = lambda * (p * e1 / (e1 - 1) + (1 - p) * e2 / (e2 + 1) - 1);
    for (int j = 0; j < n; ++j) {
        vp_assert_eq(a.m[j], (w.r - w.c - w.v * w.v / 2 - comp) * dt, "mean of the log-return without jumps");
        vp_assert_eq(scr.pa[j], lambda * dt, "jump count is Poisson(lambda dt)");
        for (int i = 0; i <= j; ++i) vp_assert_eq(cov(a, i, j), i == j ? w.v * w.v * dt : 0.0, i == j ? "variance of the log-return without jumps" : "independent steps");
    }
    scr.rewind(); auto base = sim();
    vp_assert(scr.np == n && scr.nu == 0 && scr.ne == 0, "no jump draws without jumps");
    // one path with jumps: each jump is +Exp(eta1) with probability p, else -Exp(eta2)
    int total = 0;
    jumps(n);
    for (int j = 0; j < n; ++j) total += scr.p[j];
    double u[8];
    for (int k = 0; k < total; ++k) { scr.e[k] = vp_pos(nm("e", k).c_str()); u[k] = vp_range(nm("u", k).c_str(), 0, 1); vp_assume(u[k] > 0 && u[k] < 1 && u[k] != p && u[k] != 1 - p); }
    // orientation: does a small uniform mean "up" (u < p) or a large one (u > 1 - p)?
    bool low = true;
    if (total) {
        for (int k = 0; k < total; ++k) scr.u[k] = 0;
        scr.rewind(); auto x = sim();
        double first = 0; for (int j = 0; j < n; ++j) first += x[j] - base[j];
        low = first > 0 || p == 0;
        if (!low && p > 0) vp_assume(p < 1);
    }
    for (int k = 0; k < total; ++k) scr.u[k] = u[k];
    scr.rewind(); auto x = sim();
    vp_reach("simulated");
    vp_assert(scr.np == n, "one jump count per step"); vp_assert(scr.nu == total, "one direction draw per jump"); vp_assert(scr.ne == total, "exactly one size draw per jump");
    int k = 0;
    for (int j = 0; j < n; ++j) {
        double want = base[j];
        for (int i = 0; i < scr.p[j]; ++i, ++k) {
            bool up = low ? u[k] < p : u[k] > 1 - p;
            want += up ? scr.e[k] : -scr.e[k];
            vp_assert_eq(scr.ea[k], up ? e1 : e2, "jump size rate eta1 upward, eta2 downward");
            vp_assert_eq(scr.ua[k], 0, "direction uniform on (0,1)"); vp_assert_eq(scr.ub[k], 1, "direction uniform on (0,1)");
        }
        vp_assert_eq(x[j], want, "log-return is the diffusion part plus the signed jumps");
    }
}
VP_TEST(kou_law) { kou(false); }
VP_TEST(kou_law_coupon) { kou(true); }
static int jumpscript(int n) { int t = 0; for (int j = 0; j < n; ++j) { scr.p[j] = j == 1 ? 33 : (j * 3 + 1) % 4; t += scr.p[j]; } return t; }   // 0..3 jumps per step, once 33
static int somesteps() { static const int s[] = {2, 5, 12, 25, 52, 100}; return s[vp_int("size", 0, vp_tier() ? 5 : 4)]; }
VP_TEST(merton_long) {
    World w(true); int n = somesteps(), t = jumpscript(n); script_normals(n + t);
    double lambda = vp_pos("lambda"), mu = vp_double("muJ"), sj = vp_pos("sigmaJ");
    MertonJumpDiffusionModel model("A", w.md, std::make_shared<Gen>(n), lambda, mu, sj), single("A", w.md, std::make_shared<Gen>(1), lambda, mu, sj);
    auto p = model.simulatePrices(w.T);
    vp_assert(scr.nz == n + t, "one normal per step and per jump");
    homogeneous(w, p, n, [&](int) { return &single; });
}
VP_TEST(bates_long) {
    World w(true); int n = somesteps(), t = jumpscript(n); script_normals(2 * n + t);
    double kappa = vp_pos("kappa"), theta = vp_nonneg("theta"), sv = vp_pos("sigma_v"), rho = vp_range("rho", -1, 1), v0 = vp_pos("v0");
    double lambda = vp_pos("lambda"), mu = vp_double("muJ"), sj = vp_pos("sigmaJ");
    auto cir = std::make_shared<Cir>(), other = std::make_shared<Cir>();
    for (int k = 0; k < n; ++k) cir->V.push_back(vp_pos(nm("V", k + 1).c_str()));
    other->V.assign(n, 1.0);
    BatesModel model("A", w.md, std::make_shared<Gen>(n), kappa, theta, sv, rho, v0, lambda, mu, sj, cir);
    auto p = model.simulatePrices(w.T);
    vp_assert((int)cir->shocks.size() == n, "one variance update per step");
    std::unique_ptr<BatesModel> one;
    homogeneous(w, p, n, [&](int j) {
        one = std::make_unique<BatesModel>("A", w.md, std::make_shared<Gen>(1), kappa, theta, sv, rho, j ? cir->V[j - 1] : v0, lambda, mu, sj, other);
        return one.get();
    });
    for (int j = 0; j < n; ++j) vp_assert_eq(cir->shocks[j], other->shocks[j], "variance shock of every step");
}
VP_TEST(kou_long) {
    World w(true); int n = somesteps(), t = jumpscript(n); script_normals(n);
    double lambda = vp_pos("lambda"), p = vp_exact(0.375), e1 = vp_pos("eta1"), e2 = vp_pos("eta2");
    vp_assume(e1 > 1);
    for (int k = 0; k < t; ++k) { scr.e[k] = vp_pos(nm("e", k).c_str()); scr.u[k] = vp_exact(((k * 37 + 11) % 64 + 0.5) / 64.0); }
    KouModel model("A", w.md, std::make_shared<Gen>(n), lambda, p, e1, e2), single("A", w.md, std::make_shared<Gen>(1), lambda, p, e1, e2);
    auto q = model.simulatePrices(w.T);
    vp_assert(scr.nu == t && scr.ne == t, "one direction and one size per jump");
    homogeneous(w, q, n, [&](int) { return &single; });
    // and the jump part itself, for any number of jumps
    scr.rewind(); double base = 0, sum = 0; int k = 0;
    { int keep[300]; for (int j = 0; j < n; ++j) { keep[j] = scr.p[j]; scr.p[j] = 0; } auto x = model.simulatePrices(w.T); base = std::log(x.back() / w.S); for (int j = 0; j < n; ++j) scr.p[j] = keep[j]; }
    double both[2] = {0, 0};
    for (; k < t; ++k) { double u = ((k * 37 + 11) % 64 + 0.5) / 64.0; both[0] += u < 0.375 ? scr.e[k] : -scr.e[k]; both[1] += u > 0.625 ? scr.e[k] : -scr.e[k]; }
    sum = std::log(q.back() / w.S) - base;
    // low or high uniforms mean "up": decided by the first jump alone
    for (int j = 0; j < n; ++j) scr.p[j] = j == 0;
    scr.rewind(); scr.u[0] = vp_exact(0.0); auto x = model.simulatePrices(w.T);
    bool low = std::log(x.back() / w.S) - base > 0;
    vp_assert_eq(sum, both[low ? 0 : 1], "every jump of a long path is up with probability p, else down");
}
static void counts(int run, int n) { for (int j = 0; j < n; ++j) scr.p[j] = (run + j) % 3; }
VP_TEST(merton_in_turn) {
    World w(vp_bool("coupon")); int n = vp_int("steps", 1, 3);
    double lambda = vp_pos("lambda"), mu = vp_double("muJ"), sj = vp_pos("sigmaJ");
    in_turn(w, n, [&] { return std::make_unique<MertonJumpDiffusionModel>("A", w.md, std::make_shared<Gen>(n), lambda, mu, sj); }, [&](int run) { counts(run, n); });
}
VP_TEST(bates_in_turn) {
    World w(vp_bool("coupon")); int n = vp_int("steps", 1, 3);
    double kappa = vp_pos("kappa"), theta = vp_nonneg("theta"), sv = vp_pos("sigma_v"), rho = vp_range("rho", -1, 1), v0 = vp_pos("v0");
    double lambda = vp_pos("lambda"), mu = vp_double("muJ"), sj = vp_pos("sigmaJ"), V[3][3];
    auto cir = std::make_shared<Cir>();
    for (int r = 0; r < 3; ++r) for (int k = 0; k < n; ++k) V[r][k] = vp_pos(nm(r == 0 ? "Va" : r == 1 ? "Vb" : "Vc", k).c_str());
    in_turn(w, n, [&] { return std::make_unique<BatesModel>("A", w.md, std::make_shared<Gen>(n), kappa, theta, sv, rho, v0, lambda, mu, sj, cir); },
            [&](int r) { counts(r, n); cir->V.assign(V[r], V[r] + n); cir->shocks.clear(); });
}
VP_TEST(kou_in_turn) {
    World w(vp_bool("coupon")); int n = vp_int("steps", 1, 3);
    double lambda = vp_pos("lambda"), p = vp_exact(0.375), e1 = vp_pos("eta1"), e2 = vp_pos("eta2");
    vp_assume(e1 > 1);
    in_turn(w, n, [&] { return std::make_unique<KouModel>("A", w.md, std::make_shared<Gen>(n), lambda, p, e1, e2); },
            [&](int run) { counts(run, n); for (int k = 0; k < 6; ++k) { scr.e[k] = vp_exact(0.25 * (k + 1) + run); scr.u[k] = vp_exact(((k * 3 + run) % 8 + 0.5) / 8.0); } });
}
//@ mode fp
static double num(const char* n) { double x = vp_double(n); vp_assume(x == x); return x; }
static std::shared_ptr<MarketData> market() { auto md = MarketData::getInstance(); md->addStock("A", 100.0, 0.2); return md; }
VP_TEST(merton_domain) {
    auto md = market(); double sj = num("sigmaJ");
    int o = vp_outcome<std::invalid_argument>([&] { MertonJumpDiffusionModel m("A", md, std::make_shared<Gen>(1), 0.5, 0.1, sj); vp_reach("accepted"); });
    vp_assert(o == (sj > 0 ? 0 : 1), "Merton rejects exactly non-positive sigmaJ");
}
VP_TEST(kou_domain) {
    auto md = market(); double p = num("p"), e1 = num("eta1"), e2 = num("eta2");
    int o = vp_outcome<std::invalid_argument>([&] { KouModel m("A", md, std::make_shared<Gen>(1), 0.5, p, e1, e2); vp_reach("accepted"); });
    vp_assert(o == (p >= 0 && p <= 1 && e1 > 1 && e2 > 0 ? 0 : 1), "Kou rejects exactly p outside [0,1], eta1 <= 1, eta2 <= 0");
}
VP_TEST(bates_domain) {
    auto md = market(); double kappa = num("kappa"), sv = num("sigma_v"), rho = num("rho"), v0 = num("v0"), sj = num("sigmaJ");
    int o = vp_outcome<std::invalid_argument>([&] { BatesModel m("A", md, std::make_shared<Gen>(1), kappa, 0.04, sv, rho, v0, 0.5, 0.1, sj); vp_reach("accepted"); });
    vp_assert(o == (kappa > 0 && sv > 0 && rho >= -1 && rho <= 1 && v0 > 0 && sj > 0 ? 0 : 1), "Bates rejects exactly its invalid parameters");
}
