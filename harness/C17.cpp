// C17 lookback Monte-Carlo prices
//@ mode real
//@ bound N = 1..2 paths, 1..3 dates, and one path with up to 4 dates (5 thorough); every positive simulated price, every rate, maturity, strike; call and put; also more dates and paths with a fixed pattern of extremes and arbitrary amounts
//@ assume exact real arithmetic
#include "pricers.h"
static void lookback(int n, int steps, bool fixed) {
    Setup s(n, steps);
    auto o = make(fixed ? FIXLB : FLOATLB, s.p);
    auto pr = fixed ? pricer<FixedStrikeLookbackMCBuilder>(o, s.model) : pricer<FloatingStrikeLookbackMCBuilder>(o, s.model);
    double v = pr->calculatePrice(s.n), sum = 0;
    vp_reach("priced");
    vp_assert(s.model->next == s.n, "every path simulated exactly once");
    for (int i = 0; i < s.n; ++i) {
        auto& q = s.model->path[i];
        double lo = q[0], hi = q[0];
        for (double x : q) { if (x < lo) lo = x; if (x > hi) hi = x; }
        if (fixed) sum += s.p.kind == 0 ? vanilla(0, hi, s.p.K) : vanilla(1, lo, s.p.K);
        else sum += s.p.kind == 0 ? q.back() - lo : hi - q.back();
    }
    vp_assert_eq(v, s.discount(sum), "price uses the path extreme");
}
VP_TEST(floating) { lookback(2, 2, false); }
VP_TEST(fixed) { lookback(2, 2, true); }
VP_TEST(floating_long) { lookback(1, vp_tier() ? 5 : 4, false); }
VP_TEST(fixed_long) { lookback(1, vp_tier() ? 5 : 4, true); }
static void longer(bool fixed, int n, int steps, int turn) {   // paths that fall (rise) until date (turn + 2 i) mod steps and rise (fall) from there
    Setup s(Setup::Empty{}, n, steps);
    bool valley = s.p.kind == (fixed ? 1 : 0);   // the extreme that counts is the minimum
    double sum = 0;
    for (int i = 0; i < n; ++i) {
        int at = (turn + 2 * i) % steps;
        std::vector<double> q(steps);
        q[at] = vp_pos(nm2("E", i, 0).c_str());
        for (int j = at - 1; j >= 0; --j) { double d = vp_pos(nm2("d", i, j).c_str()); q[j] = valley ? q[j + 1] + d : q[j + 1] / (1 + d); }
        for (int j = at + 1; j < steps; ++j) { double d = vp_pos(nm2("d", i, j).c_str()); q[j] = valley ? q[j - 1] + d : q[j - 1] / (1 + d); }
        if (valley && i % 2) vp_assume(q[0] < q[steps - 1]); else if (valley) vp_assume(q[0] > q[steps - 1]);
        s.model->path[i] = q;
        if (fixed) { bool in = i % 3 != 1; vp_assume((in == (s.p.kind == 0)) ? q[at] > s.p.K : q[at] < s.p.K); if (in) sum += s.p.kind == 0 ? q[at] - s.p.K : s.p.K - q[at]; }
        else sum += valley ? q.back() - q[at] : q[at] - q.back();
    }
    auto o = make(fixed ? FIXLB : FLOATLB, s.p);
    auto pr = fixed ? pricer<FixedStrikeLookbackMCBuilder>(o, s.model) : pricer<FloatingStrikeLookbackMCBuilder>(o, s.model);
    double v = pr->calculatePrice(n);
    vp_assert(s.model->next == n, "every path simulated exactly once");
    vp_assert_eq(v, s.discount(sum), "price uses the path extreme, many dates and paths");
    vp_reach("longer");
}
static int dates() { static const int s[] = {5, 6, 7, 8, 9, 12}; return s[vp_int("dates", 0, vp_tier() ? 5 : 3)]; }
VP_TEST(many_dates_floating) { int n = dates(); longer(false, 1, n, vp_int("turn", 0, n - 1)); }
VP_TEST(many_dates_fixed) { int n = dates(); longer(true, 1, n, vp_int("turn", 0, n - 1)); }
VP_TEST(many_paths_floating) { static const int s[] = {4, 5, 8, 9, 16, 17, 33}; longer(false, s[vp_int("paths", 0, vp_tier() ? 6 : 4)], 2, 1); }
VP_TEST(many_paths_fixed) { static const int s[] = {4, 5, 8, 9, 16, 17, 33}; longer(true, s[vp_int("paths", 0, vp_tier() ? 6 : 4)], 2, 1); }
//@ tier thorough
VP_TEST(floating_more) { lookback(2, 3, false); }
VP_TEST(fixed_more) { lookback(2, 3, true); }
