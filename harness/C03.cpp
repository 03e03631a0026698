// C03 market data validity and atomic updates
//@ mode fp
//@ bound two stored tickers in an arbitrary valid state plus an unknown ticker; sequences of up to 2 operations (3 in the thorough tier), every operand any double incl. NaN and infinities; also 3..33 tickers (64 thorough) and histories of 4..12 operations (33) with fixed choice of operations, valid values and every seventh value arbitrary, ordinary tickers or tickers that begin alike, with or without observers coming and going
#include "options.h"
#include <cfloat>
#include <optional>
#include <vector>
struct Rec { bool there = false; double S = 0, v = 0; bool hc = false; double c = 0; };
static const char* names[3] = {"AAPL", "MSFT", "NOPE"};
static bool valid(double S, double v, bool hc, double c) { return S > 0 && v >= 0 && (!hc || (c >= 0 && c <= 1)); }
static std::string nm(const char* b, int i) { return std::string(b) + char('0' + i); }
static void verify(const std::shared_ptr<MarketData>& md, const Rec* m, double r) {
    for (int i = 0; i < 3; ++i) {
        if (!m[i].there) {
            vp_assert(vp_outcome<std::invalid_argument>([&] { (void)md->getStockData(names[i]); }) == 1, "reading an unknown ticker throws invalid_argument");
            continue;
        }
        auto d = md->getStockData(names[i]);
        vp_assert(d->getPrice() > 0, "stored price positive"); vp_assert(d->getSigma() >= 0, "stored volatility non-negative");
        if (d->getCoupon()) vp_assert(*d->getCoupon() >= 0 && *d->getCoupon() <= 1, "stored coupon in [0,1]");
        vp_assert_eq(d->getPrice(), m[i].S, "price as specified"); vp_assert_eq(d->getSigma(), m[i].v, "volatility as specified");
        vp_assert(d->getCoupon().has_value() == m[i].hc, "coupon presence as specified");
        if (m[i].hc) vp_assert_eq(*d->getCoupon(), m[i].c, "coupon as specified");
    }
    vp_assert_eq(md->getR(), r, "interest rate as specified");
}
static void step(const std::shared_ptr<MarketData>& md, Rec* m, double& r, int n, int first) {
    int op = n == 0 && first >= 0 ? first : vp_int(nm("op", n).c_str(), 0, 4);
    double x = vp_double(nm("x", n).c_str());
    if (op == 4) { md->setR(x); r = x; return; }
    int i = vp_int(nm("ticker", n).c_str(), 0, 2);
    bool hc = op >= 2 ? vp_bool(nm("hc", n).c_str()) : false;
    std::string t = names[i];
    int o; bool ok;
    if (op == 0) { o = vp_outcome<std::invalid_argument>([&] { md->updateStockPrice(t, x); }); ok = m[i].there && x > 0; if (ok) m[i].S = x; }
    else if (op == 1) { o = vp_outcome<std::invalid_argument>([&] { md->updateStockSigma(t, x); }); ok = m[i].there && x >= 0; if (ok) m[i].v = x; }
    else if (op == 2) {
        std::optional<double> c; if (hc) c = x;
        o = vp_outcome<std::invalid_argument>([&] { md->updateStockCoupon(t, c); });
        ok = m[i].there && (!hc || (x >= 0 && x <= 1)); if (ok) { m[i].hc = hc; m[i].c = x; }
    } else {
        double v = vp_double(nm("v", n).c_str());
        if (hc) { double c = vp_double(nm("c", n).c_str()); o = vp_outcome<std::invalid_argument>([&] { md->addStock(t, x, v, c); }); ok = valid(x, v, true, c); if (ok) m[i] = Rec{true, x, v, true, c}; }
        else { o = vp_outcome<std::invalid_argument>([&] { md->addStock(t, x, v); }); ok = valid(x, v, false, 0); if (ok) m[i] = Rec{true, x, v, false, 0}; }
    }
    vp_assert(o == (ok ? 0 : 1), "invalid or unknown: invalid_argument; valid: accepted");
}
static void sequence(int steps, int first = -1) {
    auto md = MD();
    Rec m[3]; double r = vp_double("r0");
    md->setR(r);
    for (int i = 0; i < 2; ++i) {
        m[i] = Rec{true, vp_pos(nm("S0", i).c_str()), vp_nonneg(nm("v0", i).c_str()), i == 0, 0};
        if (m[i].hc) { m[i].c = vp_range(nm("c0", i).c_str(), 0, 1); md->addStock(names[i], m[i].S, m[i].v, m[i].c); }
        else md->addStock(names[i], m[i].S, m[i].v);
    }
    for (int n = 0; n < steps; ++n) step(md, m, r, n, first);
    vp_reach("done");
    verify(md, m, r);
}
VP_TEST(one_operation) { sequence(1); }
VP_TEST(two_operations_price) { sequence(2, 0); }
VP_TEST(two_operations_sigma) { sequence(2, 1); }
VP_TEST(two_operations_coupon) { sequence(2, 2); }
VP_TEST(two_operations_add) { sequence(2, 3); }
VP_TEST(two_operations_rate) { sequence(2, 4); }
// many tickers and long histories: fixed choice of operations, valid values, every seventh value arbitrary
static int style;
static std::string tick(int i) {   // ordinary names, or names that begin (or end) alike and differ in case only
    if (style == 1) return std::string(i / 2 + 1, 'A') + (i % 2 ? "" : "a");
    std::string t = "T"; t += char('A' + i % 26); t += char('A' + i / 26); return t; }
struct Idle : MarketDataObserver { using MarketDataObserver::MarketDataObserver; void update() override {} };
static void many(int n, int ops) {
    auto md = MD(); style = vp_int("style", 0, 1);
    std::vector<std::shared_ptr<Idle>> idle; bool watched = vp_bool("observers");
    auto watch = [&](int i) { if (!watched) return; idle.push_back(std::make_shared<Idle>(i < 0 ? std::string("nobody") : tick(i))); md->addObserver(idle.back()); if (idle.size() == 3) { idle.front().reset(); md->removeObserver(); } };
    std::vector<Rec> m(n); double r = vp_double("r0"); md->setR(r);
    auto name = [](const char* b, int i) { return std::string(b) + char('0' + i / 10) + char('0' + i % 10); };
    auto same = [&](int i) {
        auto d = md->getStockData(tick(i));
        vp_assert_eq(d->getPrice(), m[i].S, "price as specified, many tickers"); vp_assert_eq(d->getSigma(), m[i].v, "volatility as specified, many tickers");
        vp_assert(d->getCoupon().has_value() == m[i].hc, "coupon presence as specified, many tickers");
        if (m[i].hc) vp_assert_eq(*d->getCoupon(), m[i].c, "coupon as specified, many tickers");
    };
    for (int i = 0; i < n; ++i) {
        int k = (i * 7 + 3) % n; if (n % 7 == 0) k = i;
        m[k] = Rec{true, vp_pos(name("S", k).c_str()), vp_nonneg(name("v", k).c_str()), k % 3 == 0, 0};
        if (m[k].hc) { m[k].c = vp_range(name("c", k).c_str(), 0, 1); md->addStock(tick(k), m[k].S, m[k].v, m[k].c); } else md->addStock(tick(k), m[k].S, m[k].v);
        if (i < 6) watch(k);
    }
    watch(-1); watch(0);
    int first = vp_int("first op", 0, 3);
    for (int j = 0; j < ops; ++j) {
        int i = (j * 5 + first) % n, op = (j + first) % 4; bool bad = j % 7 == 5;
        double x = bad ? vp_double(name("x", j).c_str()) : vp_range(name("x", j).c_str(), 0.125, 1.0);
        int o = vp_outcome<std::invalid_argument>([&] {
            if (op == 0) md->updateStockPrice(tick(i), x); else if (op == 1) md->updateStockSigma(tick(i), x); else if (op == 2) md->updateStockCoupon(tick(i), x); else md->addStock(tick(i), x, x);
        });
        bool ok = op == 0 ? x > 0 : op == 1 ? x >= 0 : op == 2 ? x >= 0 && x <= 1 : x > 0;
        vp_assert(o == (ok ? 0 : 1), "invalid: invalid_argument; valid: accepted, in a long history");
        if (ok) { if (op == 0) m[i].S = x; else if (op == 1) m[i].v = x; else if (op == 2) { m[i].hc = true; m[i].c = x; } else m[i] = Rec{true, x, x, false, 0}; }
        if (j % 2) watch(i);
        if (j % 3 == 1) { r = vp_double(name("r", j).c_str()); md->setR(r); }
        same(i);
    }
    for (int i = 0; i < n; ++i) same(i);
    vp_assert_eq(md->getR(), r, "interest rate as specified, many tickers");
    vp_reach("many");
}
VP_TEST(many_tickers) { static const int s[] = {3, 4, 5, 8, 9, 13, 16, 17, 33, 64}; many(s[vp_int("tickers", 0, vp_tier() ? 9 : 7)], 3); }
VP_TEST(long_histories) { static const int s[] = {4, 5, 6, 8, 10, 12, 17, 33}; many(2, s[vp_int("operations", 0, vp_tier() ? 7 : 5)]); }
//@ tier thorough
//@ budget 200
VP_TEST(three_operations_price) { sequence(3, 0); }
VP_TEST(three_operations_sigma) { sequence(3, 1); }
VP_TEST(three_operations_coupon) { sequence(3, 2); }
VP_TEST(three_operations_add) { sequence(3, 3); }
VP_TEST(three_operations_rate) { sequence(3, 4); }
