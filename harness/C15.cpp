// C15 Asian Monte-Carlo prices
//@ mode real
//@ bound N = 1..3 paths, 1..3 monitoring dates (4 x 4 thorough); every positive simulated price, every rate, maturity, strike; call and put; also 4..52 dates (geometric: 16) with 1..2 paths and 4..64 paths (geometric: 9) with 2 dates, fixed in/out-of-the-money pattern, arbitrary prices
//@ assume exact real arithmetic
#include "pricers.h"
static void asian(bool geo, bool update) {
    int m = vp_tier() ? 4 : 3;
    Setup s(m, m);
    auto o = make(geo ? GASIAN : AASIAN, s.p);
    auto pr = geo ? pricer<GeometricAsianMCBuilder>(o, s.model) : pricer<ArithmeticAsianMCBuilder>(o, s.model);
    if (update) { s.r = vp_double("r2"); s.md->setR(s.r); }
    double v = pr->calculatePrice(s.n), sum = 0;
    vp_reach("priced");
    vp_assert(s.model->next == s.n, "every path simulated exactly once");
    for (int i = 0; i < s.n; ++i) {
        double a = 0;
        for (double x : s.model->path[i]) a += geo ? std::log(x) : x;
        a /= s.steps;
        sum += vanilla(s.p.kind, geo ? std::exp(a) : a, s.p.K);
    }
    vp_assert_eq(v, s.discount(sum), "price = exp(-rT) * mean payoff of the average");
}
VP_TEST(arithmetic) { asian(false, false); }
VP_TEST(geometric) { asian(true, false); }
VP_TEST(arithmetic_current_rate) { asian(false, true); }
static void longer(bool geo, int n, int steps) {   // many paths or monitoring dates, whose averages are in (every third: out of) the money
    Setup s(Setup::Empty{}, n, steps);
    double sum = 0;
    for (int i = 0; i < n; ++i) {
        double a = 0;
        for (int j = 0; j < steps; ++j) { double x = vp_pos(nm2("P", i, j).c_str()); s.model->path[i].push_back(x); a += geo ? std::log(x) : x; }
        a /= steps;
        if (geo) a = std::exp(a);
        bool in = i % 3 != 1;
        vp_assume((in == (s.p.kind == 0)) ? a > s.p.K : a < s.p.K);
        if (in) sum += s.p.kind == 0 ? a - s.p.K : s.p.K - a;
    }
    auto o = make(geo ? GASIAN : AASIAN, s.p);
    auto pr = geo ? pricer<GeometricAsianMCBuilder>(o, s.model) : pricer<ArithmeticAsianMCBuilder>(o, s.model);
    double v = pr->calculatePrice(n);
    vp_assert(s.model->next == n, "every path simulated exactly once");
    vp_assert_eq(v, s.discount(sum), "price = exp(-rT) * mean payoff of the average, many dates and paths");
    vp_reach("longer");
}
static int dates() { static const int s[] = {4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 21, 31, 32, 33, 52, 64, 100, 252, 260}; return s[vp_int("dates", 0, vp_tier() ? 19 : 17)]; }
static int paths() { static const int s[] = {4, 5, 6, 7, 8, 9, 10, 16, 17, 25, 32, 33, 64, 65, 100, 101}; return s[vp_int("paths", 0, vp_tier() ? 15 : 12)]; }
VP_TEST(many_dates) { longer(false, 2, dates()); }
VP_TEST(many_dates_geometric) { static const int s[] = {4, 5, 6, 7, 8, 9, 12, 16, 17, 33}; longer(true, 1, s[vp_int("dates", 0, vp_tier() ? 9 : 7)]); }
VP_TEST(many_paths) { longer(false, paths(), 2); }
VP_TEST(many_paths_geometric) { longer(true, vp_int("paths", 4, vp_tier() ? 12 : 9), 2); }
