// C16 barrier Monte-Carlo prices
//@ mode real
//@ bound N = 1..2 paths, 1..3 monitoring dates (3 x 3 thorough); every positive simulated price, every rate, maturity, strike, barrier level; up and down, call and put; also 5..16 dates (52 thorough) and 3..17 paths (100) with a fixed crossing and moneyness pattern and arbitrary amounts
//@ assume exact real arithmetic
#include "pricers.h"
static void barrier(int maxn, int steps, bool in) {
    Setup s(maxn, steps);
    s.p.B = vp_nonneg("B"); s.p.up = vp_bool("up");
    auto o = make(in ? KIN : KOUT, s.p);
    auto pr = in ? pricer<KnockInBarrierMCBuilder>(o, s.model) : pricer<KnockOutBarrierMCBuilder>(o, s.model);
    double v = pr->calculatePrice(s.n), sum = 0;
    vp_reach("priced");
    vp_assert(s.model->next == s.n, "every path simulated exactly once");
    for (int i = 0; i < s.n; ++i) {
        bool hit = false;
        for (double x : s.model->path[i]) hit = hit || (s.p.up ? x >= s.p.B : x <= s.p.B);
        if (hit == in) sum += vanilla(s.p.kind, s.model->path[i].back(), s.p.K);
    }
    vp_assert_eq(v, s.discount(sum), in ? "knock-in pays exactly on paths that hit" : "knock-out pays exactly on paths that do not hit");
}
VP_TEST(knock_in_short) { barrier(2, 2, true); }
VP_TEST(knock_out_short) { barrier(2, 2, false); }
VP_TEST(knock_in_long) { barrier(1, vp_tier() ? 5 : 4, true); }
VP_TEST(knock_out_long) { barrier(1, vp_tier() ? 5 : 4, false); }
VP_TEST(parity) {
    Setup s(vp_tier() ? 2 : 1, 3);
    s.p.B = vp_nonneg("B"); s.p.up = vp_bool("up");
    auto in = pricer<KnockInBarrierMCBuilder>(make(KIN, s.p), s.model), out = pricer<KnockOutBarrierMCBuilder>(make(KOUT, s.p), s.model);
    auto van = pricer<MCSinglePathBuilder>(make(EURO, s.p), s.model);
    double a = in->calculatePrice(s.n); s.model->next = 0;
    double b = out->calculatePrice(s.n); s.model->next = 0;
    double c = van->calculatePrice(s.n);
    vp_reach("priced");
    vp_assert_eq(a + b, c, "knock-in + knock-out = vanilla");
}
static void longer(bool in, int n, int steps, int first) {   // path i crosses first at date (first + 3 i) mod (steps + 1), or never; only there, or also at every later odd date
    Setup s(Setup::Empty{}, n, steps);
    s.p.B = vp_pos("B"); s.p.up = vp_bool("up"); bool again = vp_bool("again");
    double sum = 0;
    for (int i = 0; i < n; ++i) {
        int hit = (first + 3 * i) % (steps + 1);
        for (int j = 0; j < steps; ++j) {
            bool h = j == hit || (again && j > hit && j % 2);
            double d = vp_pos(nm2("d", i, j).c_str());
            s.model->path[i].push_back(h == s.p.up ? s.p.B + d : s.p.B / (1 + d));
        }
        double last = s.model->path[i].back();
        vp_assume(s.p.kind == 0 ? last > s.p.K : last < s.p.K);
        if ((hit < steps) == in) sum += s.p.kind == 0 ? last - s.p.K : s.p.K - last;
    }
    auto o = make(in ? KIN : KOUT, s.p);
    auto pr = in ? pricer<KnockInBarrierMCBuilder>(o, s.model) : pricer<KnockOutBarrierMCBuilder>(o, s.model);
    double v = pr->calculatePrice(n);
    vp_assert(s.model->next == n, "every path simulated exactly once");
    vp_assert_eq(v, s.discount(sum), in ? "knock-in pays exactly on paths that hit, many dates and paths" : "knock-out pays exactly on paths that do not hit, many dates and paths");
    vp_reach("longer");
}
static int dates() { static const int s[] = {5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 32, 52}; return s[vp_int("dates", 0, vp_tier() ? 11 : 8)]; }
static int paths() { static const int s[] = {3, 4, 5, 7, 8, 9, 16, 17, 6, 10, 32, 33, 64, 100}; return s[vp_int("paths", 0, vp_tier() ? 13 : 7)]; }
VP_TEST(many_dates_in) { int n = dates(); longer(true, 1, n, vp_int("hit", 0, n)); }
VP_TEST(many_dates_out) { int n = dates(); longer(false, 1, n, vp_int("hit", 0, n)); }
VP_TEST(many_paths_in) { longer(true, paths(), 4, vp_int("hit", 0, 4)); }
VP_TEST(many_paths_out) { longer(false, paths(), 4, vp_int("hit", 0, 4)); }
//@ tier thorough
VP_TEST(knock_in_more) { barrier(3, 3, true); }
VP_TEST(knock_out_more) { barrier(3, 3, false); }
