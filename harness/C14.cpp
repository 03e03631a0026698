// C14 single-path Monte-Carlo price
//@ mode real
//@ bound N = 1..4 paths (6 thorough), 1..2 steps; every positive simulated price, every rate, maturity, strike; European, digital and double-digital options, call and put; also up to 1024 paths with a fixed in/out-of-the-money pattern and arbitrary amounts
//@ assume exact real arithmetic
#include "pricers.h"
#include "solver/monte_carlo/mc_solver.h"
static int maxn() { return vp_tier() ? 6 : 4; }
static void single(int type) {
    Setup s(maxn(), 2);
    if (type == DDIGI) s.p.K2 = vp_nonneg("K2");
    auto o = make(type, s.p);
    auto pr = pricer<MCSinglePathBuilder>(o, s.model);
    double v = pr->calculatePrice(s.n), sum = 0;
    vp_reach("priced");
    vp_assert(s.model->next == s.n, "every path simulated exactly once");
    for (int i = 0; i < s.n; ++i) {
        double S = s.model->path[i].back();
        sum += type == EURO ? vanilla(s.p.kind, S, s.p.K) : type == DIGI ? ((s.p.kind == 0 ? S > s.p.K : S < s.p.K) ? 1.0 : 0.0) : (s.p.K <= S && S <= s.p.K2 ? 1.0 : 0.0);
    }
    vp_assert_eq(v, s.discount(sum), "price = exp(-rT) * mean payoff");
}
VP_TEST(european) { single(EURO); }
VP_TEST(digital) { single(DIGI); }
VP_TEST(double_digital) { single(DDIGI); }
static void many(int type) {   // large numbers of paths, every third one out of the money
    Setup s(Setup::Empty{}, manypaths(), 2);
    double sum = 0;
    for (int i = 0; i < s.n; ++i) {
        bool in = i % 3 != 1;
        double S = s.money(in, i, 0);
        s.model->path[i] = {1.0, S};
        if (in) sum += type == DIGI ? 1.0 : s.p.kind == 0 ? S - s.p.K : s.p.K - S;
    }
    auto pr = pricer<MCSinglePathBuilder>(make(type, s.p), s.model);
    double v = pr->calculatePrice(s.n);
    vp_assert(s.model->next == s.n, "every path simulated exactly once");
    vp_assert_eq(v, s.discount(sum), "price = exp(-rT) * mean payoff over any number of paths");
    vp_reach("many");
}
VP_TEST(many_european) { many(EURO); }
VP_TEST(many_digital) { many(DIGI); }
VP_TEST(current_rate) {   // discounting uses the rate current at pricing time
    Setup s(2, 1);
    auto pr = pricer<MCSinglePathBuilder>(make(EURO, s.p), s.model);
    s.r = vp_double("r2"); s.md->setR(s.r);
    double v = pr->calculatePrice(s.n), sum = 0;
    for (int i = 0; i < s.n; ++i) sum += vanilla(s.p.kind, s.model->path[i].back(), s.p.K);
    vp_reach("priced");
    vp_assert_eq(v, s.discount(sum), "discounted with the current rate");
}
struct Fixed final : MCPricer {
    double a, b;
    Fixed(double a_, double b_) : MCPricer(nullptr, nullptr), a(a_), b(b_) {}
    double calculatePrice(const unsigned long& n) const override { return a + b * (double)n; }
};
VP_TEST(facade) {
    MCSolver s(vp_int("N0", 1, 3));
    vp_assert(vp_outcome<std::logic_error>([&] { (void)s.solve(); }) == 1, "no pricer: logic_error");
    double a = vp_double("a"), b = vp_double("b");
    s.setPricer(std::make_unique<Fixed>(0.0, 1.0));
    s.setPricer(std::make_unique<Fixed>(a, b));
    int n = vp_int("N", 1, 5); s.setN(n);
    vp_reach("solved");
    vp_assert_eq(s.solve(), a + b * n, "the pricer's value for the current N");
    s.setN(7); vp_assert_eq(s.solve(), a + b * 7, "the pricer's value after changing N");
    MCSolver q(9); q.setPricer(std::make_unique<Fixed>(a, b)); vp_assert_eq(q.solve(), a + b * 9, "initial N");
}
