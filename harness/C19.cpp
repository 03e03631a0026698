// C19 Monte-Carlo builders wire exactly what was configured
//@ mode real
//@ bound all 8 builders against all 10 option types; builders used for one or two options on two tickers and for up to three builds; market data set before or after the other settings and after a build; N = 1 path; every spot, rate, strike, maturity, simulated price
//@ assume exact real arithmetic; default-model tests of path-dependent builders use zero volatility and rate = coupon (constant paths) so that 52 dates need no case split; the single-path test has symbolic volatility and draws
#include "pricers.h"
#include "models.h"
#include "model/gbm_model.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
static int draws; static double zed[4]; static bool given;   // given: a model was given, the default one must not run
extern "C" double vp_draw(int kind, double a, double b) { vp_assert(!given, "a given model is used, not the default one"); vp_assert(kind == 0, "the default model draws normals"); int i = draws++; return a + b * (i < 4 ? zed[i] : 0.0); }
enum { SINGLE, BAMER, BAASIAN, BGASIAN, BKIN, BKOUT, BFLOAT, BFIX, NB };
static std::unique_ptr<MCBuilder> builder(int b) {
    switch (b) {
    case SINGLE: return std::make_unique<MCSinglePathBuilder>();
    case BAMER: return std::make_unique<AmericanMCBuilder>();
    case BAASIAN: return std::make_unique<ArithmeticAsianMCBuilder>();
    case BGASIAN: return std::make_unique<GeometricAsianMCBuilder>();
    case BKIN: return std::make_unique<KnockInBarrierMCBuilder>();
    case BKOUT: return std::make_unique<KnockOutBarrierMCBuilder>();
    case BFLOAT: return std::make_unique<FloatingStrikeLookbackMCBuilder>();
    default: return std::make_unique<FixedStrikeLookbackMCBuilder>();
    }
}
static int target(int o) {   // builder of an option type
    static const int t[NOPT] = {SINGLE, SINGLE, SINGLE, BAMER, BAASIAN, BGASIAN, BKIN, BKOUT, BFLOAT, BFIX};
    return t[o];
}
static int sample(int b) { static const int t[NB] = {EURO, AMER, AASIAN, GASIAN, KIN, KOUT, FLOATLB, FIXLB}; return t[b]; }
VP_TEST(option_types) {
    MD()->addStock("A", 100.0, 0.2);
    int b = vp_int("builder", 0, NB - 1), o = vp_int("option", 0, NOPT - 1);
    auto B = builder(b); Par p; p.kind = vp_int("kind", 0, 1);
    auto opt = make(o, p);
    vp_assert(vp_outcome<std::invalid_argument>([&] { B->setOption(opt); }) == (target(o) == b ? 0 : 1), "only options of the builder's own type are accepted");
    vp_reach("set");
}
VP_TEST(no_option) {
    MD()->addStock("A", 100.0, 0.2);
    auto B = builder(vp_int("builder", 0, NB - 1));
    if (vp_bool("model")) B->setStockPriceModel(std::make_shared<PathModel>(MD(), 1, 1, 1.0));
    vp_assert(vp_outcome<std::logic_error>([&] { (void)B->build(); }) == 1, "building without an option throws logic_error");
    vp_reach("built");
}
VP_TEST(rejected_option) {   // a rejected option does not become the option of the pricer
    MD()->addStock("A", 100.0, 0.2);
    int b = vp_int("builder", 0, NB - 1);
    auto B = builder(b); Par p;
    vp_outcome<std::invalid_argument>([&] { B->setOption(make(b == SINGLE ? AMER : EURO, p)); });
    vp_assert(vp_outcome<std::logic_error>([&] { (void)B->build(); }) == 1, "a rejected option is not priced");
    vp_reach("built");
}
// the payoff of a path (single date)
static double pay(int b, const Par& p, double S) {
    if (b == BFLOAT) return 0;
    if (b == BKIN || b == BKOUT) { bool hit = p.up ? S >= p.B : S <= p.B; if (hit != (b == BKIN)) return 0; }
    return vanilla(p.kind, S, p.K);
}
VP_TEST(last_setters_win) {
    auto md = MD();
    md->addStock("A", vp_pos("S"), vp_nonneg("v"));
    double r = vp_double("r"); md->setR(r);
    int b = vp_int("builder", 0, NB - 1);
    Par p1, p2;
    p1.T = vp_nonneg("T1"); p1.K = vp_nonneg("K1"); p2.T = vp_nonneg("T2"); p2.K = vp_nonneg("K2"); p2.B = vp_nonneg("B2"); p2.up = vp_bool("up"); p2.kind = vp_int("kind", 0, 1);
    auto m1 = std::make_shared<PathModel>(md, 0, 1, 0.0);       // an exhausted model: using it fails
    auto m2 = std::make_shared<PathModel>(md, 1, 1, p2.T);
    auto B = builder(b);
    bool order = vp_bool("model first");
    if (order) B->setStockPriceModel(m1);
    B->setOption(make(sample(b), p1));
    if (!order) B->setStockPriceModel(m1);
    if (vp_bool("built before")) (void)B->build();
    if (order) { B->setOption(make(sample(b), p2)); B->setStockPriceModel(m2); } else { B->setStockPriceModel(m2); B->setOption(make(sample(b), p2)); }
    auto pr = B->build();
    double v = pr->calculatePrice(1);
    vp_reach("priced");
    vp_assert_eq(v, std::exp(-r * p2.T) * pay(b, p2, m2->path[0][0]), "the last option and model are priced");
}
VP_TEST(two_pricers) {   // a pricer keeps its own configuration when the builder is used again
    auto md = MD();
    md->addStock("A", vp_pos("S"), vp_nonneg("v"));
    double r = vp_double("r"); md->setR(r);
    int b = vp_int("builder", 0, NB - 1);
    Par p1, p2;
    p1.T = vp_nonneg("T1"); p1.K = vp_nonneg("K1"); p2.T = vp_nonneg("T2"); p2.K = vp_nonneg("K2"); p1.B = 0; p2.B = 0;
    auto m1 = std::make_shared<PathModel>(md, 1, 1, p1.T);
    auto m2 = std::make_shared<PathModel>(md, 1, 1, p2.T);
    auto B = builder(b);
    B->setOption(make(sample(b), p1)); B->setStockPriceModel(m1);
    auto a = B->build();
    B->setOption(make(sample(b), p2)); B->setStockPriceModel(m2);
    auto c = B->build();
    double va = a->calculatePrice(1), vc = c->calculatePrice(1);
    vp_reach("priced");
    vp_assert_eq(va, std::exp(-r * p1.T) * pay(b, p1, m1->path[0][0]), "first pricer");
    vp_assert_eq(vc, std::exp(-r * p2.T) * pay(b, p2, m2->path[0][0]), "second pricer");
}
struct Basis final : BasisFunction {
    double v; explicit Basis(double v_) : BasisFunction(1), v(v_) {}
    Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override { Eigen::MatrixXd m(x.size(), 1); for (int i = 0; i < x.size(); ++i) m(i, 0) = v; return m; }
};
struct Regr final : Regression {
    double c; bool ok; mutable int calls = 0; Regr(double c_, bool o) : c(c_), ok(o) {}
    Eigen::VectorXd solve(const Eigen::MatrixXd&, const Eigen::VectorXd&) const override { vp_assert(ok, "the last regression given is used"); ++calls; Eigen::VectorXd v(1); v[0] = c; return v; }
};
VP_TEST(american_strategies) {
    auto md = MD();
    md->addStock("A", 100.0, 0.2); md->setR(0.0);
    Par p; p.T = 1; p.K = vp_nonneg("K"); p.kind = 1;
    auto m = std::make_shared<PathModel>(md, 1, 2, p.T);
    double u = vp_double("basis"), c = vp_double("coef");
    auto good = std::make_shared<Regr>(c, true);
    AmericanMCBuilder B;
    B.setOption(make(AMER, p)); B.setStockPriceModel(m);
    if (vp_bool("earlier")) { B.setRegressionStrategy(std::make_shared<Regr>(0.0, false)); B.setBasisFunctionStrategy(std::make_shared<Basis>(vp_double("other"))); (void)B.build(); }
    if (vp_bool("order")) { B.setRegressionStrategy(good); B.setBasisFunctionStrategy(std::make_shared<Basis>(u)); }
    else { B.setBasisFunctionStrategy(std::make_shared<Basis>(u)); B.setRegressionStrategy(good); }
    if (vp_bool("built before")) (void)B.build();
    double v = B.build()->calculatePrice(1);
    double e = vanilla(1, m->path[0][0], p.K), f = vanilla(1, m->path[0][1], p.K);
    vp_reach("priced");
    vp_assert_eq(v, e > 0 && e > u * c ? e : f, "the given regression and basis decide the exercise");
    vp_assert(good->calls == (e > 0 ? 1 : 0), "the given regression is used");
}
struct FakeMD final : IMarketData {
    double r; std::shared_ptr<StockData> s;
    void addObserver(const std::shared_ptr<MarketDataObserver>&) override {}
    void removeObserver() override {}
    std::shared_ptr<const StockData> getStockData(const std::string& t) const override { vp_assert(t == "A", "the option's ticker"); return s; }
    double getR() const override { return r; }
    void setR(const double& x) override { r = x; }
};
VP_TEST(market_data_discount) {
    auto md = MD();
    md->addStock("A", vp_pos("S"), vp_nonneg("v"));
    md->setR(vp_double("r"));
    auto f = std::make_shared<FakeMD>(), g = std::make_shared<FakeMD>(); f->r = vp_double("fake_r"); g->r = vp_double("other_r");
    int b = vp_int("builder", 0, NB - 1);
    Par p; p.T = vp_nonneg("T"); p.K = vp_nonneg("K"); p.B = 0;
    auto m = std::make_shared<PathModel>(md, 1, 1, p.T);
    auto B = builder(b);
    if (vp_bool("earlier")) B->setMarketData(g);
    if (vp_bool("order")) { B->setMarketData(f); B->setOption(make(sample(b), p)); } else { B->setOption(make(sample(b), p)); B->setMarketData(f); }
    B->setStockPriceModel(m);
    double v = B->build()->calculatePrice(1);
    vp_reach("priced");
    vp_assert_eq(v, std::exp(-f->r * p.T) * pay(b, p, m->path[0][0]), "the given market data discounts");
}
VP_TEST(built_again) {   // a builder keeps its configuration: later builds use it too, with whatever was set in between
    auto md = MD();
    given = true;
    md->addStock("A", vp_pos("S"), vp_nonneg("v"));
    md->setR(vp_double("r"));
    auto f = std::make_shared<FakeMD>(); f->r = vp_double("fake_r"); bool fake = vp_bool("market data");
    int b = vp_int("builder", 0, NB - 1);
    Par p1, p2;
    p1.T = p2.T = vp_nonneg("T"); p1.K = vp_nonneg("K1"); p2.K = vp_nonneg("K2"); p1.B = p2.B = 0;
    auto m1 = std::make_shared<PathModel>(md, 3, 1, p1.T);
    auto m2 = std::make_shared<PathModel>(md, 1, 1, p1.T);
    auto B = builder(b);
    if (fake) B->setMarketData(f);
    B->setOption(make(sample(b), p1)); B->setStockPriceModel(m1);
    auto a = B->build();
    auto c = B->build();
    double df = std::exp(-(fake ? f->r : md->getR()) * p1.T);
    vp_assert_eq(a->calculatePrice(1), df * pay(b, p1, m1->path[0][0]), "first build");
    vp_assert_eq(c->calculatePrice(1), df * pay(b, p1, m1->path[1][0]), "second build");
    bool option = vp_bool("new option");
    if (option) B->setOption(make(sample(b), p2)); else B->setStockPriceModel(m2);
    auto d = B->build();
    vp_assert_eq(d->calculatePrice(1), df * (option ? pay(b, p2, m1->path[2][0]) : pay(b, p1, m2->path[0][0])), "build after changing one thing");
    vp_reach("priced");
}
static void source(int b) {   // the default model takes its data from the market data given, whenever that was given
    auto md = MD(); md->addStock("A", vp_pos("S"), 0.0); md->setR(0.0);
    auto f = std::make_shared<FakeMD>(); f->r = vp_range("fake_r", 0, 1);
    double S = vp_pos("fake_S"); f->s = std::make_shared<StockData>(S, 0.0, f->r);
    Par p; p.T = vp_pos("T"); p.K = vp_nonneg("K"); p.B = b == BKOUT ? 0 : vp_pos("B"); p.up = b != BKOUT;
    vp_assume(p.K < 1e6); vp_assume(S < 1e6);
    auto B = builder(b);
    if (b == BAMER) { auto& a = static_cast<AmericanMCBuilder&>(*B); a.setRegressionStrategy(std::make_shared<Regr>(1.0, true)); a.setBasisFunctionStrategy(std::make_shared<Basis>(vp_exact(1e300))); }
    auto o = make(sample(b), p);
    switch (vp_int("order", 0, 2)) {
    case 0: B->setMarketData(f); B->setOption(o); break;
    case 1: B->setOption(o); B->setMarketData(f); break;
    default: B->setOption(o); (void)B->build(); B->setMarketData(f);
    }
    double v = B->build()->calculatePrice(1);
    vp_reach("priced");
    if (b == BGASIAN) return;
    vp_assert_eq(v, std::exp(-f->r * p.T) * pay(b, p, S), "the default model uses the given market data");
}
VP_TEST(source_single) { source(SINGLE); }
VP_TEST(source_american) { source(BAMER); }
VP_TEST(source_asian) { source(vp_bool("geometric") ? BGASIAN : BAASIAN); }
VP_TEST(source_barrier) { source(vp_bool("out") ? BKOUT : BKIN); }
VP_TEST(source_lookback) { source(vp_bool("fixed") ? BFIX : BFLOAT); }
// default model
VP_TEST(default_single) {
    auto md = MD();
    double S[2], v[2], r = vp_double("r"), T[2];
    const char* t[2] = {"A", "B"};
    for (int i = 0; i < 2; ++i) { S[i] = vp_pos(nm("S", i).c_str()); v[i] = vp_pos(nm("v", i).c_str()); T[i] = vp_pos(nm("T", i).c_str()); md->addStock(t[i], S[i], v[i]); }
    md->setR(r);
    for (int i = 0; i < 2; ++i) zed[i] = vp_double(nm("z", i).c_str());
    MCSinglePathBuilder B;
    int first = vp_int("first", 0, 1), reuse = vp_bool("reuse");
    for (int k = 0; k <= reuse; ++k) {
        int i = k ? 1 - first : first;
        Par p; p.ticker = t[i]; p.K = vp_nonneg(nm("K", i).c_str()); p.T = T[i];
        B.setOption(make(EURO, p));
        auto pr = B.build();
        draws = 0;
        double x = pr->calculatePrice(1);
        vp_reach("priced");
        vp_assert(draws == 52, "52 steps by default");
        double ST = S[i] * std::exp((r - v[i] * v[i] / 2) * T[i] + v[i] * std::sqrt(T[i] / 52) * (zed[0] + zed[1]));
        vp_assert_eq(x, std::exp(-r * T[i]) * vanilla(0, ST, p.K), "default GBM on the option's own ticker");
    }
}
static void dflt(int b, int perpath) {
    auto md = MD();
    double S[2], r = vp_range("r", 0, 1);
    const char* t[2] = {"A", "B"};
    for (int i = 0; i < 2; ++i) { S[i] = vp_pos(nm("S", i).c_str()); md->addStock(t[i], S[i], 0.0, r); }
    md->setR(r);
    auto B = builder(b);
    if (b == BAMER) { auto& a = static_cast<AmericanMCBuilder&>(*B); a.setRegressionStrategy(std::make_shared<Regr>(1.0, true)); a.setBasisFunctionStrategy(std::make_shared<Basis>(vp_exact(1e300))); }
    int first = vp_int("first", 0, 1), reuse = vp_bool("reuse");
    for (int k = 0; k <= reuse; ++k) {
        int i = k ? 1 - first : first;
        Par p; p.ticker = t[i]; p.K = vp_nonneg(nm("K", i).c_str()); p.T = vp_pos(nm("T", i).c_str()); p.B = b == BKOUT ? 0 : vp_pos(nm("B", i).c_str()); p.up = b != BKOUT;
        vp_assume(p.K < 1e6 && S[i] < 1e6);
        B->setOption(make(sample(b), p));
        auto pr = B->build();
        draws = 0;
        double x = pr->calculatePrice(1);
        vp_reach("priced");
        vp_assert(draws == perpath, "52 steps by default");
        if (b == BGASIAN) continue;
        vp_assert_eq(x, std::exp(-r * p.T) * pay(b, p, S[i]), "default GBM on the option's own ticker");
    }
}
VP_TEST(default_american) { dflt(BAMER, 52 + 51); }
VP_TEST(default_arithmetic) { dflt(BAASIAN, 52); }
VP_TEST(default_geometric) { dflt(BGASIAN, 52); }
VP_TEST(default_knock_in) { dflt(BKIN, 52); }
VP_TEST(default_knock_out) { dflt(BKOUT, 52); }
VP_TEST(default_floating) { dflt(BFLOAT, 52); }
VP_TEST(default_fixed) { dflt(BFIX, 52); }
