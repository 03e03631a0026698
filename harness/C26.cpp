// C26 Black-Scholes PDE coefficients, payoff and boundary values
//@ mode real
//@ bound every node x >= 0, elapsed time t >= 0, spot, volatility, rate, coupon (present or absent), strike; call and put
//@ assume exact real arithmetic; exp is an uninterpreted positive function with its algebraic laws
#include "options.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
using OptionPricer::PDE::OneFactor::BlackScholesPDE;
struct W {
    double S, v, r, c = 0, K, T, x, t; bool hc; int kind; std::shared_ptr<BlackScholesPDE> pde;
    explicit W(int type = EURO) {
        S = vp_pos("S"); v = vp_nonneg("sigma"); r = vp_double("r"); hc = vp_bool("coupon"); kind = vp_int("kind", 0, 1);
        if (hc) { c = vp_range("c", 0, 1); MD()->addStock("A", S, v, c); } else MD()->addStock("A", S, v);
        MD()->addStock("B", vp_pos("otherS"), vp_nonneg("otherV"));
        MD()->setR(r);
        Par p; p.K = K = vp_nonneg("K"); p.T = T = vp_pos("T"); p.kind = kind;
        pde = std::make_shared<BlackScholesPDE>(std::dynamic_pointer_cast<EuropeanOption>(make(type, p)), MD());
        x = vp_nonneg("x"); t = vp_nonneg("t");
    }
};
VP_TEST(coefficients) {
    W w;
    vp_reach("pde");
    vp_assert_eq(w.pde->diffusion(w.t, w.x), w.v * w.v * w.x * w.x / 2, "diffusion sigma^2 x^2 / 2");
    vp_assert_eq(w.pde->convection(w.t, w.x), (w.r - w.c) * w.x, "convection (r-c) x");
    vp_assert_eq(w.pde->reaction(w.t, w.x), -w.r, "reaction -r");
    vp_assert_eq(w.pde->rightHandSide(w.t, w.x), 0.0, "no source");
    vp_assert_eq(w.pde->initialCondition(w.x), w.kind == 0 ? (w.x > w.K ? w.x - w.K : 0.0) : (w.K > w.x ? w.K - w.x : 0.0), "initial condition is the payoff");
}
VP_TEST(boundaries) {
    W w;
    vp_reach("pde");
    double D = std::exp(-w.r * w.t);
    vp_assert_eq(w.pde->boundaryLeft(w.t, 0.0), w.kind == 0 ? 0.0 : w.K * D, "value at x = 0");
    vp_assert_eq(w.pde->boundaryRight(w.t, w.x), w.kind == 0 ? w.x * std::exp(-w.c * w.t) - w.K * D : 0.0, "value at the right end");
}
VP_TEST(boundaries_at_start) {   // compatible with the initial condition (right end beyond the strike)
    W w;
    vp_assume(w.x >= w.K);
    vp_reach("pde");
    vp_assert_eq(w.pde->boundaryLeft(0.0, 0.0), w.pde->initialCondition(0.0), "left boundary agrees with the payoff at t = 0");
    vp_assert_eq(w.pde->boundaryRight(0.0, w.x), w.pde->initialCondition(w.x), "right boundary agrees with the payoff at t = 0");
}
VP_TEST(stationary) {   // the boundary values solve the pricing equation themselves (discounted bond and dividend-paying stock)
    W w;
    vp_reach("pde");
    if (w.kind == 0) {   // u = x e^{-ct} - K e^{-rt}: u_t = conv*u_x + reaction*u as diffusion acts on a linear function
        double ex = std::exp(-w.c * w.t), er = std::exp(-w.r * w.t);
        double ut = -w.c * w.x * ex + w.r * w.K * er, u = w.pde->boundaryRight(w.t, w.x);
        vp_assert_eq(ut, w.pde->convection(w.t, w.x) * ex + w.pde->reaction(w.t, w.x) * u - w.pde->rightHandSide(w.t, w.x), "right boundary value solves the equation");
    } else {
        double u = w.pde->boundaryLeft(w.t, 0.0);
        vp_assert_eq(-w.r * u, w.pde->reaction(w.t, 0.0) * u, "left boundary value solves the equation");
    }
}
VP_TEST(current_data) {
    W w;
    // asked before with the earlier data
    double t0 = vp_bool("same time") ? w.t : vp_nonneg("t0"), x0 = vp_nonneg("x0");
    vp_assert_eq(w.pde->diffusion(t0, x0), w.v * w.v * x0 * x0 / 2, "volatility"); vp_assert_eq(w.pde->convection(t0, x0), (w.r - w.c) * x0, "rate and coupon"); vp_assert_eq(w.pde->reaction(t0, x0), -w.r, "rate");
    vp_assert_eq(w.pde->boundaryLeft(t0, 0.0), w.kind == 0 ? 0.0 : w.K * std::exp(-w.r * t0), "left end"); vp_assert_eq(w.pde->boundaryRight(t0, x0), w.kind == 0 ? x0 * std::exp(-w.c * t0) - w.K * std::exp(-w.r * t0) : 0.0, "right end");
    double v = vp_nonneg("sigma2"), r = vp_double("r2"), c = vp_range("c2", 0, 1);
    MD()->updateStockSigma("A", v); MD()->updateStockCoupon("A", c); MD()->setR(r); MD()->updateStockPrice("A", vp_pos("S2"));
    vp_reach("pde");
    vp_assert_eq(w.pde->diffusion(w.t, w.x), v * v * w.x * w.x / 2, "current volatility");
    vp_assert_eq(w.pde->convection(w.t, w.x), (r - c) * w.x, "current rate and coupon");
    vp_assert_eq(w.pde->reaction(w.t, w.x), -r, "current rate");
    vp_assert_eq(w.pde->boundaryLeft(w.t, 0.0), w.kind == 0 ? 0.0 : w.K * std::exp(-r * w.t), "current rate at the left end");
    vp_assert_eq(w.pde->boundaryRight(w.t, w.x), w.kind == 0 ? w.x * std::exp(-c * w.t) - w.K * std::exp(-r * w.t) : 0.0, "current data at the right end");
}
