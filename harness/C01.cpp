// C01 payoffs
//@ mode fp
//@ bound every finite double spot/extreme and every double strike (incl. NaN, infinities, -0.0): IEEE-754 binary64, no size bound; two payoffs of a class used alternately, two calls each
//@ assume the spot and the extreme are finite doubles (market data and simulations only produce finite prices)
#include "vp.h"
#include <cfloat>
#include <memory>
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
using namespace OptionPricer;
static double finite(const char* n) { return vp_range(n, -DBL_MAX, DBL_MAX); }
static PayoffType kind(int k) { return k == 0 ? PayoffType::Call : k == 1 ? PayoffType::Put : PayoffType::DoubleDigital; }

// value for valid strikes; wrong arity throws logic_error
template <class P, class F> static void single(F expected) {
    int k = vp_int("kind", 0, 1);
    double K = vp_range("K", 0.0, DBL_MAX), S = finite("S");
    P p(kind(k), K);
    vp_reach("constructed");
    const Payoff& b = p;
    double v = b(S);
    vp_assert_eq(v, expected(k, S, K), "value");
    vp_assert(v >= 0.0, "non-negative");
    vp_assert(vp_outcome<std::logic_error>([&] { (void)b(S, K); }) == 1, "two-argument call throws logic_error");
}
VP_TEST(vanilla) { single<PayoffVanilla>([](int k, double S, double K) { return k == 0 ? (S > K ? S - K : 0.0) : (K > S ? K - S : 0.0); }); }
VP_TEST(digital) { single<PayoffDigital>([](int k, double S, double K) { return (k == 0 ? S > K : S < K) ? 1.0 : 0.0; }); }

// two payoffs of the same class used alternately, each asked twice
template <class P, class F> static void in_turn(F expected) {
    int k = vp_int("kind", 0, 1), l = vp_int("other kind", 0, 1);
    double K = vp_range("K", 0.0, DBL_MAX), L = vp_range("L", 0.0, DBL_MAX), S = finite("S"), X = finite("X");
    P p(kind(k), K), q(kind(l), L);
    const Payoff &a = p, &b = q;
    double v1 = a(S), w1 = b(S), v2 = a(X), w2 = b(X);
    vp_reach("evaluated");
    vp_assert_eq(v1, expected(k, S, K), "first value"); vp_assert_eq(w1, expected(l, S, L), "first value of the other payoff");
    vp_assert_eq(v2, expected(k, X, K), "second value"); vp_assert_eq(w2, expected(l, X, L), "second value of the other payoff");
    P copy(p); const Payoff& c = copy; vp_assert_eq(c(X), v2, "a copy pays the same");
}
VP_TEST(vanilla_in_turn) { in_turn<PayoffVanilla>([](int k, double S, double K) { return k == 0 ? (S > K ? S - K : 0.0) : (K > S ? K - S : 0.0); }); }
VP_TEST(digital_in_turn) { in_turn<PayoffDigital>([](int k, double S, double K) { return (k == 0 ? S > K : S < K) ? 1.0 : 0.0; }); }
VP_TEST(others_in_turn) {
    double L = vp_range("KL", 0.0, DBL_MAX), U = vp_range("KU", 0.0, DBL_MAX), L2 = vp_range("KL2", 0.0, DBL_MAX), U2 = vp_range("KU2", 0.0, DBL_MAX), S = finite("S"), X = finite("X");
    vp_assume(L <= U); vp_assume(L2 <= U2);
    PayoffDoubleDigital p(L, U), q(L2, U2); const Payoff &a = p, &b = q;
    double v1 = a(S), w1 = b(S), v2 = a(X);
    vp_assert_eq(v1, (L <= S && S <= U) ? 1.0 : 0.0, "first value"); vp_assert_eq(w1, (L2 <= S && S <= U2) ? 1.0 : 0.0, "value of the other payoff"); vp_assert_eq(v2, (L <= X && X <= U) ? 1.0 : 0.0, "second value");
    PayoffLookbackFloatingStrike c(kind(0)), d(kind(1)); const Payoff &e = c, &f = d;
    double x = e(S, X), y = f(S, X), z = e(X, S);
    vp_reach("evaluated");
    vp_assert_eq(x, S > X ? S - X : 0.0, "call"); vp_assert_eq(y, X > S ? X - S : 0.0, "put"); vp_assert_eq(z, X > S ? X - S : 0.0, "call again");
}

// construction: accepted exactly for strike >= 0 and a supported kind
template <class P> static void construct() {
    int k = vp_int("kind", 0, 2);
    double K = vp_double("K");
    int o = vp_outcome<std::invalid_argument>([&] { P p(kind(k), K); vp_reach("accepted"); vp_assert_eq(p.getK(), K, "strike stored"); vp_assert(p.getPayoffType() == kind(k), "kind stored"); });
    vp_assert(o == ((K >= 0.0 && k < 2) ? 0 : 1), "accepted iff strike >= 0 and kind supported");
}
VP_TEST(vanilla_ctor) { construct<PayoffVanilla>(); }
VP_TEST(digital_ctor) { construct<PayoffDigital>(); }

VP_TEST(double_digital) {
    double L = vp_range("KL", 0.0, DBL_MAX), U = vp_range("KU", 0.0, DBL_MAX), S = finite("S");
    PayoffDoubleDigital p(L, U);
    vp_reach("constructed");
    const Payoff& b = p;
    vp_assert_eq(b(S), (L <= S && S <= U) ? 1.0 : 0.0, "value");
    vp_assert_eq(p.getKL(), L, "lower"); vp_assert_eq(p.getKU(), U, "upper");
    vp_assert(vp_outcome<std::logic_error>([&] { (void)b(S, L); }) == 1, "two-argument call throws logic_error");
}
VP_TEST(double_digital_ctor) {
    double L = vp_double("KL"), U = vp_double("KU");
    int o = vp_outcome<std::invalid_argument>([&] { PayoffDoubleDigital p(L, U); vp_reach("accepted"); });
    vp_assert(!(L >= 0.0 && U >= 0.0 && L <= U) || o == 0, "valid strikes accepted");
    vp_assert((L >= 0.0 && U >= 0.0) || o == 1, "negative or NaN strike rejected");
}
VP_TEST(lookback) {
    int k = vp_int("kind", 0, 2);
    int o = vp_outcome<std::invalid_argument>([&] {
        PayoffLookbackFloatingStrike p(kind(k));
        vp_reach("accepted");
        double S = finite("S"), X = finite("X");
        const Payoff& b = p;
        double v = b(S, X);
        vp_assert_eq(v, k == 0 ? (S > X ? S - X : 0.0) : (X > S ? X - S : 0.0), "value");
        vp_assert(v >= 0.0, "non-negative");
        vp_assert(vp_outcome<std::logic_error>([&] { (void)b(S); }) == 1, "one-argument call throws logic_error");
    });
    vp_assert(o == (k == 2 ? 1 : 0), "unsupported kind rejected");
}
