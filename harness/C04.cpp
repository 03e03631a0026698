// C04 observer notification
//@ mode fp
//@ bound up to 3 observers on 2 tickers, each registered 0..2 times, any subset destroyed before the update; every double as the new value; one update or addition of the ticker again (two in the thorough tier) followed by a check; releases and registrations from inside update(); also 4..64 observers (100 thorough) with 2 updates and 3..16 updates (33) with 4 observers, fixed registration and destruction patterns; eight triples of tickers that resemble each other
#include "options.h"
#include <vector>
static int calls[4]; static bool fresh[4], dead[4]; static double expect_; static int what_;
struct Obs : MarketDataObserver {
    int k; std::shared_ptr<MarketData> md;
    Obs(const std::string& t, int k_, std::shared_ptr<MarketData> m) : MarketDataObserver(t), k(k_), md(std::move(m)) {}
    ~Obs() override { dead[k] = true; }
    void update() override {
        vp_assert(!dead[k], "destroyed observer never called");
        ++calls[k];
        auto d = md->getStockData(what_ == 3 ? std::string("A") : std::string("A"));
        double now = what_ == 0 ? d->getPrice() : what_ == 1 ? d->getSigma() : what_ == 2 ? d->getCoupon().value_or(-1.0) : what_ == 3 ? md->getR() : d->getPrice();
        if (!(now == expect_)) fresh[k] = false;
    }
};
static void doop(const std::shared_ptr<MarketData>& md, int op, const std::string& t, double x) {
    if (op == 0) md->updateStockPrice(t, x); else if (op == 1) md->updateStockSigma(t, x); else if (op == 2) md->updateStockCoupon(t, x); else if (op == 3) md->setR(x); else md->addStock(t, x, 0.25);
}
static void setup(const std::shared_ptr<MarketData>& md) {
    for (int k = 0; k < 4; ++k) { calls[k] = 0; fresh[k] = true; dead[k] = false; }
    md->addStock("A", vp_pos("SA"), vp_nonneg("vA")); md->addStock("B", vp_pos("SB"), vp_nonneg("vB"));
}
static std::string nm(const char* b, int i) { return std::string(b) + char('0' + i); }
VP_TEST(notify) {
    auto md = MD(); setup(md);
    std::shared_ptr<Obs> o[3] = {std::make_shared<Obs>("A", 0, md), std::make_shared<Obs>("B", 1, md), std::make_shared<Obs>("A", 2, md)};
    int reg[3]; bool alive[3];
    for (int k = 0; k < 3; ++k) { reg[k] = k == 1 ? 1 : vp_int(nm("registrations", k).c_str(), 0, 2); for (int n = 0; n < reg[k]; ++n) md->addObserver(o[k]); }
    for (int k = 0; k < 3; ++k) { alive[k] = !vp_bool(nm("destroyed", k).c_str()); if (!alive[k]) o[k].reset(); }
    if (vp_bool("remove expired")) md->removeObserver();
    int op = vp_int("op", 0, 4); double x = vp_double("x");
    what_ = op; expect_ = x;
    int out = vp_outcome<std::invalid_argument>([&] { doop(md, op, "A", x); });
    bool ok = op == 0 || op == 4 ? x > 0 : op == 1 ? x >= 0 : op == 2 ? (x >= 0 && x <= 1) : true;
    vp_reach("updated");
    vp_assert(out == (ok ? 0 : 1), "accepted iff valid");
    for (int k = 0; k < 3; ++k) {
        int want = ok && alive[k] && (op == 3 || k != 1) ? reg[k] : 0;
        vp_assert(calls[k] == want, "notified exactly once per registration iff its data changed");
        vp_assert(fresh[k] || x != x, "new value readable when notified");
    }
}
// many observers on three tickers, some registered twice, every second or third one destroyed; several updates in a row
struct Cnt : MarketDataObserver {
    int* n; bool* gone; explicit Cnt(const std::string& t, int* n_, bool* g) : MarketDataObserver(t), n(n_), gone(g) {}
    ~Cnt() override { *gone = true; }
    void update() override { vp_assert(!*gone, "destroyed observer never called"); ++*n; }
};
static void crowd(int count, int updates) {
    static const std::string names[3] = {"A", "B", "C"};
    auto md = MD(); setup(md); md->addStock("C", vp_pos("SC"), vp_nonneg("vC"));
    std::vector<int> got(count, 0), want(count, 0); std::unique_ptr<bool[]> gone(new bool[count]());
    std::vector<std::shared_ptr<Cnt>> o;
    for (int k = 0; k < count; ++k) {
        o.push_back(std::make_shared<Cnt>(names[k * k % 3], &got[k], &gone[k]));
        md->addObserver(o[k]); if (k % 4 == 1) md->addObserver(o[k]);
    }
    int drop = vp_int("destroyed", 0, 3), first = vp_int("first", 0, 3); bool clean = vp_bool("remove expired");
    for (int u = 0; u < updates; ++u) {
        if (u == updates / 2) { if (drop) for (int k = 0; k < count; ++k) if (k % 4 != drop || k == count - 1) o[k].reset(); if (clean) md->removeObserver(); }
        int op = (first + u) % 4, t = (u * 2 + 1) % 3; double x = vp_range(nm("x", u % 10).c_str(), 0.125, 1.0);
        doop(md, op, names[t], x);
        for (int k = 0; k < count; ++k) if (o[k] && (op == 3 || k * k % 3 == t)) want[k] += k % 4 == 1 ? 2 : 1;
        for (int k = 0; k < count; ++k) vp_assert(got[k] == want[k], "notified exactly once per registration iff its data changed, many observers and updates");
    }
    vp_reach("crowd");
}
VP_TEST(many_observers) { static const int s[] = {4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 100}; crowd(s[vp_int("observers", 0, vp_tier() ? 10 : 8)], 2); }
VP_TEST(many_updates) { static const int s[] = {3, 4, 5, 8, 10, 16, 33}; crowd(4, s[vp_int("updates", 0, vp_tier() ? 6 : 5)]); }
// tickers that resemble each other are different tickers
VP_TEST(similar_tickers) {
    static const char* pairs[][3] = {{"A", "AB", "ABC"}, {"A", "a", "B"}, {"AB", "CB", "B"}, {"", "A", " "}, {"AB", "BA", "AA"}, {"1", "01", "1.0"}, {"X.PA", "X.DE", "X"},
                                     {"A ticker that is longer than usual 1", "A ticker that is longer than usual 2", "A ticker that is longer than usual"}};
    const char** t = pairs[vp_int("tickers", 0, 7)];
    auto md = MD(); int got[4] = {0, 0, 0, 0}; bool gone[4] = {false, false, false, false};
    std::vector<std::shared_ptr<Cnt>> o; double x = vp_range("x", 0.125, 1.0);
    for (int k = 0; k < 3; ++k) md->addStock(t[k], vp_pos(nm("S", k).c_str()), vp_nonneg(nm("v", k).c_str()));
    for (int k = 0; k < 3; ++k) { o.push_back(std::make_shared<Cnt>(t[k], &got[k], &gone[k])); md->addObserver(o[k]); }
    int at = vp_int("updated", 0, 2), op = vp_int("op", 0, 4);
    if (op == 3) md->notifyObserver(t[at]); else doop(md, op, t[at], x);
    vp_reach("updated");
    for (int k = 0; k < 3; ++k) vp_assert(got[k] == (k == at ? 1 : 0), "only the observers of this very ticker are notified");
}
VP_TEST(unknown_ticker) {
    auto md = MD(); setup(md);
    auto a = std::make_shared<Obs>("A", 0, md), c = std::make_shared<Obs>("C", 1, md);
    md->addObserver(a); md->addObserver(c);
    int op = vp_int("op", 0, 2); double x = vp_double("x");
    what_ = op; expect_ = x;
    int out = vp_outcome<std::invalid_argument>([&] { doop(md, op, "C", x); });
    vp_reach("rejected");
    vp_assert(out == 1, "unknown ticker rejected"); vp_assert(calls[0] == 0 && calls[1] == 0, "nobody notified");
}
VP_TEST(explicit_notify) {
    auto md = MD(); setup(md); what_ = 3; expect_ = md->getR();
    auto a = std::make_shared<Obs>("A", 0, md), b = std::make_shared<Obs>("B", 1, md);
    md->addObserver(a); md->addObserver(b);
    bool all = vp_bool("all");
    if (all) md->notifyObservers(); else md->notifyObserver("B");
    vp_reach("notified");
    vp_assert(calls[0] == (all ? 1 : 0), "observer of another ticker"); vp_assert(calls[1] == 1, "observer notified once");
    md->removeObserver();
    md->notifyObservers();
    vp_assert(calls[0] == (all ? 2 : 1) && calls[1] == 2, "removing expired observers keeps the live ones");
}
// options created by a factory are observers of their ticker: destroying one never disturbs the others
VP_TEST(option_lifetimes) {
    auto md = MD(); setup(md);
    auto w = std::make_shared<Obs>("A", 0, md), z = std::make_shared<Obs>("B", 1, md);
    int order = vp_int("order", 0, 2);
    if (order == 0) md->addObserver(w);
    Par p; auto opt = make(EURO, p);
    if (order == 1) md->addObserver(w);
    auto opt2 = make(AMER, p);
    if (order == 2) md->addObserver(w);
    md->addObserver(z);
    if (vp_bool("drop1")) opt.reset();
    if (vp_bool("drop2")) opt2.reset();
    int op = vp_int("op", 0, 4); double x = vp_range("x", 0.25, 1.0);
    what_ = op; expect_ = x;
    doop(md, op, "A", x);
    vp_reach("updated");
    vp_assert(calls[0] == 1 && fresh[0], "live observer notified once");
    vp_assert(calls[1] == (op == 3 ? 1 : 0), "observer of another ticker notified by rate changes only");
}
// an observer whose update() releases other observers or itself, or registers a new one
static std::shared_ptr<Obs> held[2]; static int mode_;
struct Act : MarketDataObserver {
    std::shared_ptr<MarketData> md;
    Act(std::shared_ptr<MarketData> m) : MarketDataObserver("A"), md(std::move(m)) {}
    void update() override {
        ++calls[3];
        if (mode_ == 0) { held[0].reset(); md->removeObserver(); }
        else if (mode_ == 1) { held[1].reset(); md->removeObserver(); }
        else if (mode_ == 2) { for (int i = 0; i < 3; ++i) md->addObserver(held[0]); }
    }
};
VP_TEST(reentrant) {
    auto md = MD(); setup(md);
    held[0] = std::make_shared<Obs>("A", 0, md); held[1] = std::make_shared<Obs>("A", 1, md);
    auto act = std::make_shared<Act>(md), last = std::shared_ptr<Act>();
    auto w = std::make_shared<Obs>("A", 2, md);
    md->addObserver(held[0]); md->addObserver(act); md->addObserver(held[1]); md->addObserver(w);
    mode_ = vp_int("mode", 0, 2);
    what_ = 0; double x = vp_pos("x"); expect_ = x;
    md->updateStockPrice("A", x);
    vp_reach("updated");
    vp_assert(calls[3] == 1, "acting observer notified once"); vp_assert(calls[2] == 1, "later observer notified once");
    if (mode_ == 1) vp_assert(calls[1] <= 1, "released observer notified at most once"); // alive as long as the market data holds it
    held[0].reset(); held[1].reset();
}
