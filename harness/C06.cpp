// C06 factories
//@ mode fp
//@ bound all 10 option types, call and put; every double (incl. NaN, infinities) for strikes, maturity and barrier; each parameter missing or of each other type, in a first or in a second option
#include "options.h"
#include <cfloat>
#include <cstring>
template <class O, class P> static bool is(const std::shared_ptr<Option>& o) {
    return dynamic_cast<const O*>(o.get()) != nullptr && dynamic_cast<const P*>(&o->getPayoff()) != nullptr;
}
static bool right_type(int t, const std::shared_ptr<Option>& o) {
    switch (t) {
    case EURO: return is<EuropeanOption, PayoffVanilla>(o);
    case DIGI: return is<DigitalOption, PayoffDigital>(o);
    case DDIGI: return is<DoubleDigitalOption, PayoffDoubleDigital>(o);
    case AMER: return is<AmericanOption, PayoffVanilla>(o);
    case AASIAN: return is<ArithmeticAsianOption, PayoffVanilla>(o);
    case GASIAN: return is<GeometricAsianOption, PayoffVanilla>(o);
    case KIN: return is<KnockInBarrierOption, PayoffVanilla>(o);
    case KOUT: return is<KnockOutBarrierOption, PayoffVanilla>(o);
    case FLOATLB: return is<FloatingStrikeLookbackOption, PayoffLookbackFloatingStrike>(o);
    default: return is<FixedStrikeLookbackOption, PayoffVanilla>(o);
    }
}
struct Control { void* v; int use; int weak; };
static int weak_refs(const std::shared_ptr<Option>& o) {  // weak references besides the owners' common one (libstdc++ control block)
    void* raw[2]; std::memcpy(raw, &o, sizeof raw);
    return static_cast<Control*>(raw[1])->weak - 1;
}
static void any_values(int lo, int hi) {
    int t = vp_int("type", lo, hi);
    auto md = MD();
    md->addStock("AAPL", vp_pos("S"), vp_nonneg("v")); md->addStock("MSFT", vp_pos("S2"), vp_nonneg("v2"));
    Par p; int tk = vp_int("ticker", 0, 2);
    p.ticker = tk == 0 ? "AAPL" : tk == 1 ? "MSFT" : "NOPE";
    p.T = vp_double("T"); p.K = vp_double("K"); p.K2 = vp_double("K2"); p.B = vp_double("B"); p.up = vp_bool("up"); p.kind = vp_int("kind", 0, 1);
    std::shared_ptr<Option> o;
    int out = vp_outcome<std::invalid_argument>([&] { o = make(t, p); });
    bool strike = t == FLOATLB || (p.K >= 0 && (t != DDIGI || p.K2 >= 0));
    bool ok = tk < 2 && p.T >= 0 && strike;
    if (t == DDIGI && ok) vp_assume(p.K <= p.K2);  // reversed strikes: not specified
    vp_assert(out == (ok ? 0 : 1), "built iff ticker, maturity and strikes are valid, else invalid_argument");
    if (out) return;
    vp_reach("built");
    vp_assert(right_type(t, o), "option and payoff class");
    vp_assert(o->getID() == p.ticker, "ticker"); vp_assert_eq(o->getT(), p.T, "maturity");
    const Payoff& f = o->getPayoff();
    vp_assert(f.getPayoffType() == (t == DDIGI ? PayoffType::DoubleDigital : p.kind ? PayoffType::Put : PayoffType::Call), "call/put kind");
    if (t == DDIGI) { auto& d = dynamic_cast<const PayoffDoubleStrikes&>(f); vp_assert_eq(d.getKL(), p.K, "lower strike"); vp_assert_eq(d.getKU(), p.K2, "upper strike"); }
    else if (t != FLOATLB) vp_assert_eq(dynamic_cast<const PayoffSingleStrike&>(f).getK(), p.K, "strike");
    if (auto* b = dynamic_cast<const BarrierOption*>(o.get())) {
        double S = vp_range("spot", -DBL_MAX, DBL_MAX);
        bool hit = p.up ? S >= p.B : S <= p.B;
        if (p.B == p.B) vp_assert(b->isActive(S) == (t == KIN ? hit : !hit), "barrier level and direction");
    }
    vp_assert(o.use_count() == 1, "the market data does not own the option");
    vp_assert(weak_refs(o) == 2, "registered with the market data exactly once");
}
VP_TEST(european) { any_values(EURO, EURO); }
VP_TEST(digital) { any_values(DIGI, DIGI); }
VP_TEST(double_digital) { any_values(DDIGI, DDIGI); }
VP_TEST(american) { any_values(AMER, AMER); }
VP_TEST(asian) { any_values(AASIAN, GASIAN); }
VP_TEST(barrier_in) { any_values(KIN, KIN); }
VP_TEST(barrier_out) { any_values(KOUT, KOUT); }
VP_TEST(lookback) { any_values(FLOATLB, FIXLB); }
// one parameter missing or of the wrong type
static const char* keys(int t, int i) {
    if (i == 0) return "ticker";
    if (i == 1) return "T";
    if (t == DDIGI) return i == 2 ? "K1" : i == 3 ? "K2" : nullptr;
    if (t == FLOATLB) return nullptr;
    if (i == 2) return "K";
    if (t == KIN || t == KOUT) return i == 3 ? "B" : i == 4 ? "direction" : nullptr;
    return nullptr;
}
VP_TEST(bad_parameter) {
    int t = vp_int("type", 0, NOPT - 1), i = vp_int("parameter", 0, 4), bad = vp_int("defect", 0, 4), kind = vp_int("kind", 0, 1);
    const char* key = keys(t, i);
    vp_assume(key != nullptr);
    auto md = MD(); md->addStock("A", 100.0, 0.2);
    Par p; p.kind = kind;
    ParameterObject full = params(t, p), o;
    std::shared_ptr<Option> earlier;
    if (vp_bool("created before")) { Par q = p; q.K = 90; q.T = 2; earlier = make(t, params(t, q), kind); }   // an option created before lends no parameter
    for (int j = 0; j < 5; ++j) {
        const char* k = keys(t, j);
        if (!k || j == i) continue;
        if (j == 0) o.setParameter(k, full.getParameter<std::string>(k));
        else if (std::strcmp(k, "direction") == 0) o.setParameter(k, full.getParameter<BarrierDirection>(k));
        else o.setParameter(k, full.getParameter<double>(k));
    }
    bool right = false;
    if (bad == 1) o.setParameter(key, 1); // int
    else if (bad == 2) { o.setParameter(key, 100.0); right = i != 0 && std::strcmp(key, "direction") != 0; }
    else if (bad == 3) { o.setParameter(key, std::string("A")); right = i == 0; }
    else if (bad == 4) { o.setParameter(key, BarrierDirection::Up); right = std::strcmp(key, "direction") == 0; }
    int out = vp_outcome<std::invalid_argument>([&] { auto x = make(t, o, kind); vp_reach("control: right type accepted"); });
    vp_assert(out == (right ? 0 : 1), "missing or mistyped parameter: invalid_argument");
    vp_reach("tried");
}
VP_TEST(parameter_object) {
    ParameterObject o;
    double x = vp_double("x"), y = vp_double("y"); int w = vp_int("w", 0, 3);
    auto get = [&](const char* k) { return vp_outcome<std::invalid_argument>([&] { (void)o.getParameter<double>(k); }); };
    vp_assert(get("x") == 1 && !o.hasParameter("x"), "absent name throws invalid_argument");
    o.setParameter("x", x); o.setParameter("z", y);
    vp_assert_eq(o.getParameter<double>("x"), x, "value set"); vp_assert(o.hasParameter("x"), "has it");
    vp_assert(vp_outcome<std::invalid_argument>([&] { (void)o.getParameter<int>("x"); }) == 1, "other type int");
    vp_assert(vp_outcome<std::invalid_argument>([&] { (void)o.getParameter<std::string>("x"); }) == 1, "other type string");
    vp_assert(vp_outcome<std::invalid_argument>([&] { (void)o.getParameter<BarrierDirection>("x"); }) == 1, "other type direction");
    if (w == 0) { o.setParameter("x", y); vp_assert_eq(o.getParameter<double>("x"), y, "last value"); }
    else if (w == 1) { o.setParameter("x", 7); vp_assert(o.getParameter<int>("x") == 7, "last value int"); vp_assert(get("x") == 1, "old type gone"); }
    else if (w == 2) { o.setParameter("x", std::string("Q")); vp_assert(o.getParameter<std::string>("x") == "Q", "last value string"); vp_assert(get("x") == 1, "old type gone"); }
    else { o.setParameter("x", BarrierDirection::Down); vp_assert(o.getParameter<BarrierDirection>("x") == BarrierDirection::Down, "last value direction"); vp_assert(get("x") == 1, "old type gone"); }
    vp_assert_eq(o.getParameter<double>("z"), y, "other name unchanged");
    vp_reach("done");
}
