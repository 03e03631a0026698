// C30 Brownian bridge
//@ mode real
//@ bound every positive spot and later price, 0 < t_j < t_{j+1}, volatility >= 0 (also changed after construction); one model asked about three bridges in turn; every value of the normal draw
//@ assume arithmetic is exact (real numbers); the normal sampler is replaced by an arbitrary standardised draw
#include "models.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/bates_model.h"
#include "model/variance_gamma_model.h"
VP_MODELS_DRAW
VP_TEST(bridge) {
    World w(vp_bool("coupon"));
    auto gen = std::make_shared<Gen>(vp_int("steps", 1, 2));
    GeometricBrownianMotionModel model("A", w.md, gen);
    if (vp_bool("update")) { w.v = vp_nonneg("sigma2"); w.S = vp_pos("S2"); w.md->updateStockSigma("A", w.v); w.md->updateStockPrice("A", w.S); }
    double next = vp_pos("next"), t = vp_pos("t"), u = vp_pos("u");
    vp_assume(t < u);
    auto sim = [&] { double p = model.simulatePriceBackward(next, t, u); vp_assert(p > 0, "positive"); return std::vector<double>{std::log(p / w.S)}; };
    Affine a = affine(sim, 2);
    vp_reach("bridged");
    vp_assert(scr.nz == 1, "one draw");
    vp_assert_eq(a.m[0], t / u * std::log(next / w.S), "conditional mean");
    vp_assert_eq(cov(a, 0, 0), w.v * w.v * t * (u - t) / u, "conditional variance");
}
VP_TEST(bridges_in_turn) {   // one model, several bridges: each depends on its own arguments only
    World w(vp_bool("coupon"));
    auto gen = std::make_shared<Gen>(2);
    GeometricBrownianMotionModel model("A", w.md, gen);
    double next[3] = {vp_pos("next0"), vp_pos("next1"), 0}, t[3] = {vp_pos("t0"), vp_pos("t1"), 0}, u[3] = {vp_pos("u0"), vp_pos("u1"), 0};
    int same = vp_int("same", 0, 3);   // what the second bridge shares with the first: nothing, the earlier date, the later date, the later price
    if (same == 1) t[1] = t[0];
    if (same == 2) u[1] = u[0];
    if (same == 3) next[1] = next[0];
    next[2] = next[0]; t[2] = t[0]; u[2] = u[0];
    vp_assume(t[0] < u[0]); vp_assume(t[1] < u[1]);
    for (int k = 0; k < 3; ++k) scr.z[k] = vp_double("z");
    scr.rewind();
    double x[3];
    for (int k = 0; k < 3; ++k) x[k] = model.simulatePriceBackward(next[k], t[k], u[k]);
    vp_reach("bridged");
    for (int k = 0; k < 3; ++k)
        vp_assert_eq(std::log(x[k] / w.S), t[k] / u[k] * std::log(next[k] / w.S) + std::sqrt(t[k] * (u[k] - t[k]) / u[k]) * w.v * scr.z[k], "bridge of its own dates, price and draw");
}
VP_TEST(unsupported) {
    World w(false);
    auto gen = std::make_shared<Gen>(2);
    double nu = 0.5; vp_assume(w.v < 1);
    std::unique_ptr<StockModel> m;
    switch (vp_int("model", 0, 4)) {
    case 0: m = std::make_unique<HestonModel>("A", w.md, gen, 1.0, 0.04, 0.3, 0.5, 0.04); break;
    case 1: m = std::make_unique<MertonJumpDiffusionModel>("A", w.md, gen, 1.0, 0.1, 0.2); break;
    case 2: m = std::make_unique<KouModel>("A", w.md, gen, 1.0, 0.4, 3.0, 2.0); break;
    case 3: m = std::make_unique<BatesModel>("A", w.md, gen, 1.0, 0.04, 0.3, 0.5, 0.04, 1.0, 0.1, 0.2); break;
    default: m = std::make_unique<VarianceGammaModel>("A", w.md, gen, nu, -0.1); break;
    }
    double next = vp_pos("next"), t = vp_pos("t"), u = vp_pos("u");
    vp_reach("called");
    vp_assert(vp_outcome<std::logic_error>([&] { (void)m->simulatePriceBackward(next, t, u); }) == 1, "models without a bridge throw logic_error");
}
