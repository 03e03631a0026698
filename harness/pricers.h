// shared by the Monte-Carlo harnesses: a stock model whose paths are arbitrary symbolic prices
#ifndef VP_PRICERS_H
#define VP_PRICERS_H
#include "options.h"
#include <vector>
#include "model/base_model.h"
#include "random/number_generator/base_generator.h"
#include "solver/monte_carlo/base_mc.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
inline std::string num(int i) { std::string d; do { d.insert(d.begin(), char('0' + i % 10)); i /= 10; } while (i); return d; }
inline std::string nm2(const char* b, int i, int j) { return b + num(i) + "_" + num(j); }
struct NoGen final : NumberGenerator {
    explicit NoGen(unsigned dim) : NumberGenerator(dim, 1u) {}
    double operator()(Distribution&) const override { vp_assert(false, "the pricer itself draws no random numbers"); return 0; }
};
struct PathModel final : StockModel {
    std::vector<std::vector<double>> path; mutable int next = 0; double T;
    PathModel(const std::shared_ptr<IMarketData>& md, unsigned steps, double T_) : StockModel("A", md, std::make_shared<NoGen>(steps)), T(T_) {}   // paths filled in by the test
    PathModel(const std::shared_ptr<IMarketData>& md, int n, int steps, double T_) : StockModel("A", md, std::make_shared<NoGen>(steps)), path(n), T(T_) {
        for (int i = 0; i < n; ++i) for (int j = 0; j < steps; ++j) path[i].push_back(vp_pos(nm2("P", i, j).c_str()));
    }
    const std::vector<double>& take(const double& t) const {
        vp_assert_eq(t, T, "simulated to the option's maturity");
        vp_assert(next < (int)path.size(), "one simulated path per counted path");
        return path[next++];
    }
    double simulatePriceAtMaturity(const double& t) const override { return take(t).back(); }
    std::vector<double> simulatePrices(const double& t) const override { return take(t); }
};
struct Setup {
    std::shared_ptr<MarketData> md = MarketData::getInstance(); Par p; double r; int n, steps; std::shared_ptr<PathModel> model;
    Setup(int maxn, int maxsteps) {
        md->addStock("A", vp_pos("S"), vp_nonneg("v"));
        r = vp_double("r"); md->setR(r);
        n = vp_int("N", 1, maxn); steps = vp_int("steps", 1, maxsteps);
        p.T = vp_nonneg("T"); p.K = vp_nonneg("K"); p.kind = vp_int("kind", 0, 1);
        model = std::make_shared<PathModel>(md, n, steps, p.T);
    }
    struct Empty {};
    Setup(Empty, int n_, int steps_) : n(n_), steps(steps_) {   // n paths to be filled in by the test
        md->addStock("A", vp_pos("S"), vp_nonneg("v"));
        r = vp_double("r"); md->setR(r);
        p.T = vp_nonneg("T"); p.K = vp_pos("K"); p.kind = vp_int("kind", 0, 1);
        model = std::make_shared<PathModel>(md, (unsigned)steps, p.T);
        model->path.resize(n);
    }
    // a price that is in the money (out of it) by an arbitrary amount
    double money(bool in, int i, int j) const { double d = vp_pos(nm2("d", i, j).c_str()); return in == (p.kind == 0) ? p.K + d : p.K / (1 + d); }
    double discount(double sum) const { return std::exp(-r * p.T) * sum / n; }
};
inline int manypaths() {   // numbers of paths: every small one, and larger ones around powers of two and tens
    static const int big[] = {48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 250, 255, 256, 257, 500, 512, 1000, 1001, 1024};
    int lim = vp_tier() ? 40 : 24, i = vp_int("size", 1, lim + (vp_tier() ? 20 : 13));
    return i <= lim ? i : big[i - lim - 1];
}
template <class B> inline std::unique_ptr<MCPricer> pricer(const std::shared_ptr<Option>& o, const std::shared_ptr<StockModel>& m) {
    B b; b.setOption(o); b.setStockPriceModel(m); return b.build();
}
inline double vanilla(int kind, double S, double K) { return kind == 0 ? (S > K ? S - K : 0.0) : (K > S ? K - S : 0.0); }
#endif
