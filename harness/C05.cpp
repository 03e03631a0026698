// C05 models, pricers and the PDE use the current market data
//@ mode real
//@ bound histories of 2 updates (3 thorough) of any kind (price, volatility, coupon, rate, the whole stock added again) with any values between building and using, for pricers one update of any kind or all four, or the stock added again; the older object is used once before the updates; model paths of 2 steps, pricers with N = 1 path of 2 steps; every parameter and draw, jump models with one jump per step
//@ assume exact real arithmetic; the samplers of the standard library are replaced by arbitrary draws, the same for both objects; the American regression by arbitrary coefficients
//@ budget 400
#include "pricers.h"
#include "models.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/discretization/base_cir_discretization.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/bates_model.h"
#include "model/variance_gamma_model.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
VP_MODELS_DRAW
static double curV;   // current volatility
static void history(int n) {
    for (int k = 0; k < n; ++k) {
        switch (vp_int(nm("op", k).c_str(), 0, 4)) {
        case 0: MD()->updateStockPrice("A", vp_pos(nm("S", k).c_str())); break;
        case 1: curV = vp_nonneg(nm("sigma", k).c_str()); MD()->updateStockSigma("A", curV); break;
        case 2: MD()->updateStockCoupon("A", vp_range(nm("c", k).c_str(), 0, 1)); break;
        case 3: curV = vp_nonneg(nm("sigma", k).c_str()); MD()->addStock("A", vp_pos(nm("S", k).c_str()), curV, vp_range(nm("c", k).c_str(), 0, 1)); break;
        default: MD()->setR(vp_double(nm("r", k).c_str()));
        }
    }
}
static void market(bool coupon) {
    double S = vp_pos("S"), c = coupon ? vp_range("c", 0, 1) : 0; curV = vp_nonneg("sigma");
    if (coupon) MD()->addStock("A", S, curV, c); else MD()->addStock("A", S, curV);
    MD()->addStock("B", vp_pos("otherS"), vp_nonneg("otherV"));
    MD()->setR(vp_double("r"));
}
static void draws(bool g) {
    for (int k = 0; k < 8; ++k) scr.z[k] = vp_double(nm("z", k).c_str());
    for (int k = 0; k < 4; ++k) { scr.p[k] = 1; scr.e[k] = vp_pos(nm("e", k).c_str()); scr.u[k] = vp_range(nm("u", k).c_str(), 0, 1); }
    if (g) for (int k = 0; k < 4; ++k) { double q = vp_pos(nm("rootg", k).c_str()); scr.g[k] = q * q; }
}
struct Cir final : CIRDiscretization { double V; void update(double& v, const double&, const double&, const double&, const double&, const double&) const override { v = V; } };
template <class F> static void model(F make, bool g = false) {
    market(vp_bool("coupon"));
    draws(g);
    const int n = 2;
    double T = vp_pos("T");
    auto old = make(std::make_shared<Gen>(n));
    scr.rewind(); old->simulatePrices(T);
    history(vp_tier() ? 3 : 2);
    auto neu = make(std::make_shared<Gen>(n));
    scr.rewind(); auto a = old->simulatePrices(T);
    int nz = scr.nz, np = scr.np, ng = scr.ng; double pa = scr.pa[0], ga = scr.ga[0], gb = scr.gb[0];
    scr.rewind(); auto b = neu->simulatePrices(T);
    vp_assert(nz == scr.nz && np == scr.np && ng == scr.ng, "same draws");
    if (np) vp_assert_eq(pa, scr.pa[0], "same jump intensity");
    if (ng) { vp_assert_eq(ga, scr.ga[0], "same gamma shape"); vp_assert_eq(gb, scr.gb[0], "same gamma scale"); }
    for (int j = 0; j < n; ++j) vp_assert_eq(a[j], b[j], "path with the current data");
    scr.rewind(); double m = old->simulatePriceAtMaturity(T);
    scr.rewind(); vp_assert_eq(m, neu->simulatePriceAtMaturity(T), "maturity price with the current data");
    vp_reach("simulated");
}
VP_TEST(gbm) { model([](auto g) { return std::make_shared<GeometricBrownianMotionModel>("A", MD(), g); }); }
VP_TEST(heston) {
    double k = vp_pos("kappa"), th = vp_nonneg("theta"), sv = vp_nonneg("sigma_v"), rho = vp_range("rho", -1, 1), v0 = vp_pos("v0");
    auto cir = std::make_shared<Cir>(); cir->V = vp_pos("V1");
    model([=](auto g) { return std::make_shared<HestonModel>("A", MD(), g, k, th, sv, rho, v0, cir); });
}
VP_TEST(merton) {
    double l = vp_pos("lambda"), mu = vp_double("muJ"), sj = vp_pos("sigmaJ");
    model([=](auto g) { return std::make_shared<MertonJumpDiffusionModel>("A", MD(), g, l, mu, sj); });
}
VP_TEST(kou) {
    double l = vp_pos("lambda"), e1 = vp_pos("eta1"), e2 = vp_pos("eta2"); vp_assume(e1 > 1);
    model([=](auto g) { scr.u[0] = 0.75; scr.u[1] = 0.25; return std::make_shared<KouModel>("A", MD(), g, l, 0.5, e1, e2); });
}
VP_TEST(bates) {
    double k = vp_pos("kappa"), th = vp_nonneg("theta"), sv = vp_pos("sigma_v"), rho = vp_range("rho", -1, 1), v0 = vp_pos("v0");
    double l = vp_pos("lambda"), mu = vp_double("muJ"), sj = vp_pos("sigmaJ");
    auto cir = std::make_shared<Cir>(); cir->V = vp_pos("V1");
    model([=](auto g) { return std::make_shared<BatesModel>("A", MD(), g, k, th, sv, rho, v0, l, mu, sj, cir); });
}
VP_TEST(variance_gamma) {
    double nu = vp_pos("nu"), th = vp_double("vgtheta");
    model([=](auto g) { vp_assume(1 - th * nu - curV * curV * nu / 2 > 0); return std::make_shared<VarianceGammaModel>("A", MD(), g, nu, th); }, true);
}
VP_TEST(gbm_backward) {
    market(true); draws(false);
    GeometricBrownianMotionModel old("A", MD(), std::make_shared<Gen>(2));
    double x = vp_pos("next"), t = vp_pos("t"), h = vp_pos("h");
    scr.rewind(); old.simulatePriceBackward(x, t, t + h);
    history(2);
    GeometricBrownianMotionModel neu("A", MD(), std::make_shared<Gen>(2));
    scr.rewind(); double a = old.simulatePriceBackward(x, t, t + h);
    scr.rewind(); vp_assert_eq(a, neu.simulatePriceBackward(x, t, t + h), "backward step with the current data");
    vp_reach("simulated");
}
struct Basis final : BasisFunction {
    Basis() : BasisFunction(2) {}
    Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override {
        Eigen::MatrixXd m(x.size(), 2);
        for (int i = 0; i < x.size(); ++i) { m(i, 0) = 1; m(i, 1) = x[i]; }
        return m;
    }
};
struct Regr final : Regression {
    double a, b;
    Eigen::VectorXd solve(const Eigen::MatrixXd&, const Eigen::VectorXd&) const override { Eigen::VectorXd c(2); c[0] = a; c[1] = b; return c; }
};
// pricers: GBM underneath, everything updated
template <class B> static std::unique_ptr<MCPricer> build(const std::shared_ptr<Option>& o, const std::shared_ptr<StockModel>& m, const std::shared_ptr<Regr>& r) {
    B b; b.setOption(o);
    if constexpr (std::is_same_v<B, AmericanMCBuilder>) { b.setRegressionStrategy(r); b.setBasisFunctionStrategy(std::make_shared<Basis>()); }
    b.setStockPriceModel(m);
    return b.build();
}
template <class B> static void pricer5(int type, bool pseudo = false) {
    // before the updates the path is constant, so that the first use is cheap to explore
    MD()->addStock("A", 100.0, 0.0, 0.0); MD()->addStock("B", 50.0, 0.5); MD()->setR(0.0);
    Par p; p.T = vp_pos("T"); p.K = vp_pos("K"); p.K2 = vp_pos("K2"); p.B = vp_pos("B"); p.up = vp_bool("up"); p.kind = type == AMER ? 1 : vp_int("kind", 0, 1);
    auto r = std::make_shared<Regr>(); r->a = vp_double("coef0"); r->b = vp_double("coef1");
    auto o = make(type, p);
    auto gen = [&]() -> std::shared_ptr<NumberGenerator> { if (pseudo) return std::make_shared<PseudoRandomNumberGenerator>(2, 1u); return std::make_shared<Gen>(2); };
    auto mdl = [&] { return std::make_shared<GeometricBrownianMotionModel>("A", MD(), gen()); };
    auto old = build<B>(o, mdl(), r);
    for (auto& z : scr.z) z = 0;
    scr.rewind(); old->calculatePrice(1);
    draws(false);
    int which = vp_int("which", 0, 5);   // one kind of update, or all
    if (which == 5) MD()->addStock("A", vp_pos("S1"), vp_nonneg("sigma1"), vp_range("c1", 0, 1));
    if (which == 0 || which == 1) MD()->updateStockPrice("A", vp_pos("S1"));
    if (which == 0 || which == 2) MD()->updateStockSigma("A", vp_nonneg("sigma1"));
    if (which == 0 || which == 3) MD()->updateStockCoupon("A", vp_range("c1", 0, 1));
    if (which == 0 || which == 4) MD()->setR(vp_double("r1"));
    auto neu = build<B>(o, mdl(), r);
    scr.rewind(); double a = old->calculatePrice(1);
    scr.rewind(); double b = neu->calculatePrice(1);
    vp_assert_eq(a, b, "price with the current data");
    vp_reach("priced");
}
VP_TEST(mc_european) { pricer5<MCSinglePathBuilder>(EURO); }
VP_TEST(mc_digital) { pricer5<MCSinglePathBuilder>(DIGI); }
VP_TEST(mc_asian) { pricer5<ArithmeticAsianMCBuilder>(AASIAN); }
VP_TEST(mc_gasian) { pricer5<GeometricAsianMCBuilder>(GASIAN); }
VP_TEST(mc_knock_in) { pricer5<KnockInBarrierMCBuilder>(KIN); }
VP_TEST(mc_knock_out) { pricer5<KnockOutBarrierMCBuilder>(KOUT); }
VP_TEST(mc_float_lookback) { pricer5<FloatingStrikeLookbackMCBuilder>(FLOATLB); }
VP_TEST(mc_fixed_lookback) { pricer5<FixedStrikeLookbackMCBuilder>(FIXLB); }
VP_TEST(mc_american) { pricer5<AmericanMCBuilder>(AMER); }
VP_TEST(mc_american_bridge) { pricer5<AmericanMCBuilder>(AMER, true); }
VP_TEST(black_scholes_pde) {
    market(vp_bool("coupon"));
    Par p; p.K = vp_nonneg("K"); p.T = vp_pos("T"); p.kind = vp_int("kind", 0, 1);
    auto o = std::dynamic_pointer_cast<EuropeanOption>(make(EURO, p));
    double x = vp_nonneg("x"), t = vp_nonneg("t");
    OptionPricer::PDE::OneFactor::BlackScholesPDE old(o, MD());
    { old.diffusion(t, x); old.convection(t, x); old.reaction(t, x); old.boundaryLeft(t, x); old.boundaryRight(t, x); old.initialCondition(x); old.rightHandSide(t, x); }
    history(vp_tier() ? 3 : 2);
    OptionPricer::PDE::OneFactor::BlackScholesPDE neu(o, MD());
    vp_assert_eq(old.diffusion(t, x), neu.diffusion(t, x), "diffusion with the current data");
    vp_assert_eq(old.convection(t, x), neu.convection(t, x), "convection with the current data");
    vp_assert_eq(old.reaction(t, x), neu.reaction(t, x), "reaction with the current data");
    vp_assert_eq(old.rightHandSide(t, x), neu.rightHandSide(t, x), "source with the current data");
    vp_assert_eq(old.boundaryLeft(t, x), neu.boundaryLeft(t, x), "left boundary with the current data");
    vp_assert_eq(old.boundaryRight(t, x), neu.boundaryRight(t, x), "right boundary with the current data");
    vp_assert_eq(old.initialCondition(x), neu.initialCondition(x), "initial condition with the current data");
    vp_reach("pde");
}
