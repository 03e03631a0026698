// C02 equality and cloning
//@ mode fp
//@ bound every valid double for strikes, maturity, barrier, price, volatility, coupon; all 10 option types, all payoff classes; pairs of objects
//@ assume stock data and strikes are valid (constructible) values
#include "options.h"
#include <cfloat>
#include "market_data/stock_data.h"
static double nn(const char* n) { return vp_range(n, 0.0, DBL_MAX); }
static void eq(const Payoff& a, const Payoff& b, bool e) {
    vp_assert((a == b) == e, "payoffs equal iff class, kind, strikes agree");
    vp_assert((b == a) == e, "payoff equality symmetric");
    vp_assert((a != b) == !e, "payoff != negates ==");
}
template <class P> static void single() {
    int k1 = vp_int("k1", 0, 1), k2 = vp_int("k2", 0, 1);
    double K1 = nn("K1"), K2 = nn("K2");
    P a(k1 ? PayoffType::Put : PayoffType::Call, K1), b(k2 ? PayoffType::Put : PayoffType::Call, K2);
    vp_reach("built");
    eq(a, b, k1 == k2 && K1 == K2);
    double S = vp_range("S", -DBL_MAX, DBL_MAX);
    auto c = a.clone();
    vp_assert(*c == a && a == *c, "clone equals the original");
    vp_assert(c->getPayoffType() == a.getPayoffType(), "clone kind");
    vp_assert_eq((*c)(S), a(S), "clone pays the same");
}
VP_TEST(vanilla) { single<PayoffVanilla>(); }
VP_TEST(digital) { single<PayoffDigital>(); }
VP_TEST(double_digital) {
    double L1 = nn("L1"), U1 = nn("U1"), L2 = nn("L2"), U2 = nn("U2");
    PayoffDoubleDigital a(L1, U1), b(L2, U2);
    vp_reach("built");
    eq(a, b, L1 == L2 && U1 == U2);
    double S = vp_range("S", -DBL_MAX, DBL_MAX);
    auto c = a.clone();
    vp_assert(*c == a && a == *c, "clone equals the original");
    vp_assert_eq((*c)(S), a(S), "clone pays the same");
}
VP_TEST(floating) {
    int k1 = vp_int("k1", 0, 1), k2 = vp_int("k2", 0, 1);
    PayoffLookbackFloatingStrike a(k1 ? PayoffType::Put : PayoffType::Call), b(k2 ? PayoffType::Put : PayoffType::Call);
    vp_reach("built");
    eq(a, b, k1 == k2);
    double S = vp_range("S", -DBL_MAX, DBL_MAX), X = vp_range("X", -DBL_MAX, DBL_MAX);
    auto c = a.clone();
    vp_assert(*c == a && a == *c, "clone equals the original");
    vp_assert_eq((*c)(S, X), a(S, X), "clone pays the same");
}
VP_TEST(classes) {  // different classes are never equal
    int k = vp_int("k", 0, 1), i = vp_int("i", 0, 3), j = vp_int("j", 0, 3);
    double K = nn("K");
    PayoffType t = k ? PayoffType::Put : PayoffType::Call;
    PayoffVanilla a(t, K); PayoffDigital b(t, K); PayoffDoubleDigital c(K, K); PayoffLookbackFloatingStrike d(t);
    const Payoff* p[4] = {&a, &b, &c, &d};
    vp_reach("built");
    eq(*p[i], *p[j], i == j);
}
VP_TEST(stock_data) {
    double S1 = vp_pos("S1"), S2 = vp_pos("S2"), v1 = nn("v1"), v2 = nn("v2");
    bool h1 = vp_bool("h1"), h2 = vp_bool("h2");
    std::optional<double> c1, c2;
    if (h1) c1 = vp_range("c1", 0, 1);
    if (h2) c2 = vp_range("c2", 0, 1);
    StockData a(S1, v1, c1), b(S2, v2, c2);
    vp_reach("built");
    bool e = S1 == S2 && v1 == v2 && h1 == h2 && (!h1 || *c1 == *c2);
    vp_assert((a == b) == e, "stock data equal iff price, volatility and coupon agree");
    vp_assert((b == a) == e, "symmetric"); vp_assert((a != b) == !e, "!= negates ==");
}
// options: same type, two arbitrary parameter sets
static void pair(int lo, int hi) {
    int t = vp_int("type", lo, hi);
    auto md = MD();
    double S1 = vp_pos("S1"), S2 = vp_pos("S2"), v1 = nn("v1"), v2 = nn("v2");
    md->addStock("A", S1, v1); md->addStock("B", S2, v2);
    Par p, q;
    p.T = nn("T1"); q.T = nn("T2"); p.K = nn("K1"); q.K = nn("K2"); p.K2 = nn("U1"); q.K2 = nn("U2");
    p.kind = vp_int("k1", 0, 1); q.kind = vp_int("k2", 0, 1);
    q.ticker = vp_bool("same ticker") ? "A" : "B";
    bool barrier = t == KIN || t == KOUT;
    if (barrier) { p.B = nn("B1"); q.B = nn("B2"); p.up = vp_bool("up1"); q.up = vp_bool("up2"); }
    auto a = make(t, p), b = make(t, q);
    vp_reach("built");
    bool e = p.T == q.T && (t == DDIGI ? (p.K == q.K && p.K2 == q.K2) : t == FLOATLB ? p.kind == q.kind : (p.kind == q.kind && p.K == q.K))
        && (q.ticker == "A" || (S1 == S2 && v1 == v2)) && (!barrier || (p.B == q.B && p.up == q.up));
    vp_assert((*a == *b) == e, "options equal iff type, maturity, payoff, stock data and barrier agree");
    vp_assert((*b == *a) == e, "option equality symmetric");
    vp_assert((*a != *b) == !e, "option != negates ==");
}
VP_TEST(options_simple) { pair(EURO, DIGI); }
VP_TEST(options_ddigi) { pair(DDIGI, DDIGI); }
VP_TEST(options_path) { pair(AMER, GASIAN); }
VP_TEST(options_knock_in) { pair(KIN, KIN); }
VP_TEST(options_knock_out) { pair(KOUT, KOUT); }
VP_TEST(options_lookback) { pair(FLOATLB, FIXLB); }
VP_TEST(options_types) {  // options of different types are never equal, whatever the (common) parameters
    int i = vp_int("i", 0, NOPT - 1), j = vp_int("j", 0, NOPT - 1);
    auto md = MD();
    md->addStock("A", vp_pos("S"), nn("v"));
    Par p; p.T = nn("T"); p.K = nn("K"); p.K2 = p.K; p.kind = 1;
    auto a = make(i, p), b = make(j, p);
    vp_reach("built");
    vp_assert((*a == *b) == (i == j), "options of different type are not equal");
    vp_assert((*a != *b) == (i != j), "!= of different types");
}
