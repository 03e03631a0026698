// shared by the harnesses: build any option through its factory
#ifndef VP_OPTIONS_H
#define VP_OPTIONS_H
#include "vp.h"
#include <memory>
#include <string>
#include "market_data/market_data.h"
#include "option/parameter_object.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
using namespace OptionPricer;
enum { EURO, DIGI, DDIGI, AMER, AASIAN, GASIAN, KIN, KOUT, FLOATLB, FIXLB, NOPT };
struct Par { std::string ticker = "A"; double T = 1, K = 100, K2 = 120, B = 130; bool up = true; int kind = 0; };
inline ParameterObject params(int type, const Par& p) {
    ParameterObject o;
    o.setParameter("ticker", p.ticker); o.setParameter("T", p.T);
    if (type == DDIGI) { o.setParameter("K1", p.K); o.setParameter("K2", p.K2); }
    else if (type != FLOATLB) o.setParameter("K", p.K);
    if (type == KIN || type == KOUT) { o.setParameter("B", p.B); o.setParameter("direction", p.up ? BarrierDirection::Up : BarrierDirection::Down); }
    return o;
}
template <class F> inline auto mk(const ParameterObject& o, int kind) { F f; return kind == 0 ? f.createCallOption(o) : f.createPutOption(o); }
inline std::shared_ptr<Option> make(int type, const ParameterObject& o, int kind) {
    switch (type) {
    case EURO: return mk<EuropeanOptionFactory>(o, kind);
    case DIGI: return mk<DigitalOptionFactory>(o, kind);
    case DDIGI: return mk<DoubleDigitalOptionFactory>(o, kind);
    case AMER: return mk<AmericanOptionFactory>(o, kind);
    case AASIAN: return mk<ArithmeticAsianOptionFactory>(o, kind);
    case GASIAN: return mk<GeometricAsianOptionFactory>(o, kind);
    case KIN: return mk<KnockInBarrierOptionFactory>(o, kind);
    case KOUT: return mk<KnockOutBarrierOptionFactory>(o, kind);
    case FLOATLB: return mk<FloatingStrikeLookbackOptionFactory>(o, kind);
    default: return mk<FixedStrikeLookbackOptionFactory>(o, kind);
    }
}
inline std::shared_ptr<Option> make(int type, const Par& p) { return make(type, params(type, p), p.kind); }
inline std::shared_ptr<MarketData> MD() { return MarketData::getInstance(); }
#endif
