// C18 American Monte-Carlo: Longstaff-Schwartz cash flows for any paths and any regression outcome
//@ mode real
//@ bound full-path simulation: N = 1..3 paths with 1..2 steps and N = 1..2 paths with 3 steps (N = 3 and 4 steps thorough), every positive path price; backward simulation: N = 1..2 paths, 1..3 steps, every value of the normal draws; every strike, rate, maturity, regression coefficients (two basis functions 1, x); call and put; also 4..17 paths (100 thorough) with 3 dates and 4..17 dates (52) with 2 paths, backward simulation with up to 17 paths or 9 dates, fixed moneyness and exercise pattern, arbitrary amounts
//@ assume exact real arithmetic; the regression is replaced by arbitrary coefficients per exercise date (its own correctness is C25), so every exercise decision is explored
//@ budget 500
#include "pricers.h"
#include "models.h"
#include "model/gbm_model.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
VP_MODELS_DRAW
using P = std::vector<std::vector<double>>;   // [path][date]
struct Basis final : BasisFunction {
    Basis() : BasisFunction(2) {}
    Eigen::MatrixXd generate(const Eigen::VectorXd& x) const override {
        Eigen::MatrixXd m(x.size(), 2);
        for (int i = 0; i < x.size(); ++i) { m(i, 0) = 1; m(i, 1) = x[i]; }
        return m;
    }
};
struct Regr final : Regression {
    std::vector<std::pair<double, double>> coef;              // per date, last date first
    mutable std::vector<std::vector<double>> xs, ys;
    mutable bool shape = true;
    Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override {
        std::vector<double> x, v;
        if (A.cols() != 2 || A.rows() != y.size()) shape = false;
        for (int i = 0; i < A.rows(); ++i) { x.push_back(A(i, 1)); v.push_back(y[i]); vp_assert_eq(A(i, 0), 1.0, "regression on the basis functions"); }
        xs.push_back(x); ys.push_back(v);
        Eigen::VectorXd c(2); auto& q = coef[xs.size() - 1 < coef.size() ? xs.size() - 1 : 0]; c[0] = q.first; c[1] = q.second;
        return c;
    }
};
// reference: backward induction as stated in the property
static void check(double price, const P& p, const Regr& r, int kind, double K, double rate, double T) {
    int n = p.size(), steps = p[0].size();
    double df = std::exp(-rate * (T / steps));
    std::vector<double> cf(n);
    for (int i = 0; i < n; ++i) cf[i] = vanilla(kind, p[i][steps - 1], K);
    size_t call = 0;
    vp_assert(r.shape, "one response per design row, one column per basis function");
    for (int j = steps - 2; j >= 0; --j) {
        std::vector<int> itm;
        for (int i = 0; i < n; ++i) { cf[i] = cf[i] * df; if (vanilla(kind, p[i][j], K) > 0) itm.push_back(i); }
        if (itm.empty()) continue;
        vp_assert(call < r.xs.size(), "a regression at every date with in-the-money paths");
        if (call >= r.xs.size()) return;
        vp_assert(r.xs[call].size() == itm.size(), "exactly the in-the-money paths are regressed");
        if (r.xs[call].size() != itm.size()) return;
        for (size_t k = 0; k < itm.size(); ++k) {
            vp_assert_eq(r.xs[call][k], p[itm[k]][j], "regression on the prices of the in-the-money paths");
            vp_assert_eq(r.ys[call][k], cf[itm[k]], "regression of the one-step-discounted cash flows");
        }
        auto c = r.coef[call++];
        for (int i : itm) { double ex = vanilla(kind, p[i][j], K); if (ex > c.first + c.second * p[i][j]) cf[i] = ex; }
    }
    vp_assert(call == r.xs.size(), "no other regression");
    double sum = 0;
    for (int i = 0; i < n; ++i) sum += cf[i];
    vp_assert_eq(price, df * sum / n, "price = exp(-r dt) * mean cash flow");
}
static std::shared_ptr<Regr> regr(int steps) {
    auto r = std::make_shared<Regr>();
    for (int k = 0; k + 1 < steps; ++k) { double a = vp_double(nm("a", k).c_str()); r->coef.emplace_back(a, vp_double(nm("b", k).c_str())); }
    return r;
}
static std::unique_ptr<MCPricer> am(const std::shared_ptr<Option>& o, const std::shared_ptr<StockModel>& m, const std::shared_ptr<Regr>& r) {
    AmericanMCBuilder b; b.setOption(o); b.setRegressionStrategy(r); b.setBasisFunctionStrategy(std::make_shared<Basis>()); b.setStockPriceModel(m);
    return b.build();
}
static void standard(int n, int steps, int kind) {
    auto md = MD();
    md->addStock("A", 100.0, 0.2);
    double r = vp_double("r"); md->setR(r);
    Par p; p.T = vp_nonneg("T"); p.K = vp_nonneg("K"); p.kind = kind;
    auto model = std::make_shared<PathModel>(md, n, steps, p.T);
    auto rg = regr(steps);
    double v = am(make(AMER, p), model, rg)->calculatePrice(n);
    vp_reach("priced");
    vp_assert(model->next == n, "every path simulated exactly once");
    check(v, model->path, *rg, kind, p.K, r, p.T);
}
VP_TEST(call_3x2) { standard(vp_int("N", 1, 3), vp_int("steps", 1, 2), 0); }
VP_TEST(put_3x2) { standard(vp_int("N", 1, 3), vp_int("steps", 1, 2), 1); }
VP_TEST(call_1x3) { standard(1, 3, 0); }
VP_TEST(call_2x3) { standard(2, 3, 0); }
VP_TEST(put_2x3) { standard(2, 3, 1); }
// backward simulation: GBM with a pseudo-random generator; the reference paths come from the model itself with the same draws
static void bridge(int n, int steps, bool pseudo) {
    auto md = MD();
    double S = vp_pos("S"), sg = vp_pos("sigma"), r = vp_double("r");
    md->addStock("A", S, sg); md->setR(r);
    Par p; p.T = vp_pos("T"); p.K = vp_nonneg("K"); p.kind = vp_int("kind", 0, 1);
    for (int i = 0; i < 16; ++i) scr.z[i] = vp_double(nm("z", i).c_str());
    std::shared_ptr<NumberGenerator> g;
    if (pseudo) g = std::make_shared<PseudoRandomNumberGenerator>(steps, 7u); else g = std::make_shared<Gen>(steps);
    auto model = std::make_shared<GeometricBrownianMotionModel>("A", md, g);
    P path(n, std::vector<double>(steps));
    if (pseudo) {
        for (int i = 0; i < n; ++i) path[i][steps - 1] = model->simulatePriceAtMaturity(p.T);
        double dt = p.T / steps;
        for (int j = steps - 1; j > 0; --j) for (int i = 0; i < n; ++i) path[i][j - 1] = model->simulatePriceBackward(path[i][j], j * dt, (j + 1) * dt);
    } else for (int i = 0; i < n; ++i) path[i] = model->simulatePrices(p.T);
    int used = scr.nz; scr.rewind();
    auto rg = regr(steps);
    double v = am(make(AMER, p), model, rg)->calculatePrice(n);
    vp_reach("priced");
    vp_assert(scr.nz == used, "number of draws");
    check(v, path, *rg, p.kind, p.K, r, p.T);
}
VP_TEST(bridge_1) { bridge(1, vp_int("steps", 1, 3), true); }
VP_TEST(bridge_2) { bridge(2, vp_int("steps", 1, 2), true); }
VP_TEST(gbm_other_generator) { bridge(vp_int("N", 1, 2), 2, false); }
VP_TEST(other_model_pseudo) {   // a model without a bridge is simulated forward also with a pseudo-random generator
    auto md = MD();
    md->addStock("A", 100.0, 0.2); md->setR(0.0);
    struct M final : StockModel {
        using StockModel::StockModel; mutable int k = 0; P p;
        double simulatePriceAtMaturity(const double&) const override { vp_assert(false, "full paths are simulated"); return 1; }
        std::vector<double> simulatePrices(const double&) const override { return p[k++]; }
    };
    auto model = std::make_shared<M>("A", md, std::make_shared<PseudoRandomNumberGenerator>(2, 7u));
    for (int i = 0; i < 2; ++i) { double x = vp_pos(nm2("P", i, 0).c_str()), y = vp_pos(nm2("P", i, 1).c_str()); model->p.push_back({x, y}); }
    Par p; p.T = vp_nonneg("T"); p.K = vp_nonneg("K"); p.kind = 1;
    auto rg = regr(2);
    double v = am(make(AMER, p), model, rg)->calculatePrice(2);
    vp_reach("priced");
    check(v, model->p, *rg, 1, p.K, 0.0, p.T);
}
// Many paths and dates: which path is in the money when, and whether exercise beats continuation there, follows a fixed
// pattern; the amounts are arbitrary
static int longpaths() { static const int s[] = {4, 5, 7, 8, 9, 16, 17, 3, 6, 10, 31, 32, 33, 64, 100}; return s[vp_int("paths", 0, vp_tier() ? 14 : 6)]; }
static int longdates() { static const int s[] = {4, 5, 8, 9, 12, 17, 6, 7, 10, 13, 16, 32, 33, 52}; return s[vp_int("dates", 0, vp_tier() ? 13 : 5)]; }
static void longer(int n, int steps) {
    auto md = MD();
    md->addStock("A", 100.0, 0.2);
    double r = vp_double("r"); md->setR(r);
    Par p; p.T = vp_nonneg("T"); p.K = vp_pos("K"); p.kind = vp_int("kind", 0, 1); int pat = vp_int("pattern", 0, 2);
    auto model = std::make_shared<PathModel>(md, (unsigned)steps, p.T); model->path.resize(n);
    auto rg = std::make_shared<Regr>();
    for (int j = steps - 1; j >= 0; --j) {
        double c = vp_pos(nm("a", j).c_str()); bool any = false;
        for (int i = 0; i < n; ++i) {
            // 0 out of the money, 1 in and exercised, 2 in and kept; every fifth date all paths are out
            int what = (j + pat) % 5 == 4 ? 0 : (i * (pat + 1) + j * j + pat * (i / 3)) % 3;
            double d = vp_pos(nm2("d", i, j).c_str());
            if (what) { any = true; if (j < steps - 1) vp_assume(what == 1 ? d > c : d <= c); }
            if (p.kind == 1 && what) vp_assume(d < p.K);
            model->path[i].insert(model->path[i].begin(), (what != 0) == (p.kind == 0) ? p.K + d : (what ? p.K - d : p.K / (1 + d)));
        }
        if (any && j < steps - 1) rg->coef.emplace_back(c, 0.0);
    }
    double v = am(make(AMER, p), model, rg)->calculatePrice(n);
    vp_assert(model->next == n, "every path simulated exactly once");
    check(v, model->path, *rg, p.kind, p.K, r, p.T);
    vp_reach("longer");
}
VP_TEST(many_paths) { longer(longpaths(), 3); }
VP_TEST(many_dates) { longer(2, longdates()); }
// the same with the backward simulation; a zero strike puts every path in the money, the regression line x + c is above (below) it
static void longbridge(int n, int steps) {
    auto md = MD();
    double S = vp_pos("S"), sg = vp_pos("sigma"), r = vp_double("r"); int pat = vp_int("pattern", 0, 3);
    md->addStock("A", S, sg); md->setR(r);
    Par p; p.T = vp_pos("T"); p.K = 0; p.kind = 0;
    for (int i = 0; i < n * steps; ++i) scr.z[i] = vp_double(nm("z", i).c_str());
    auto model = std::make_shared<GeometricBrownianMotionModel>("A", md, std::make_shared<PseudoRandomNumberGenerator>(steps, 7u));
    P path(n, std::vector<double>(steps));
    for (int i = 0; i < n; ++i) path[i][steps - 1] = model->simulatePriceAtMaturity(p.T);
    double dt = p.T / steps;
    for (int j = steps - 1; j > 0; --j) for (int i = 0; i < n; ++i) path[i][j - 1] = model->simulatePriceBackward(path[i][j], j * dt, (j + 1) * dt);
    int used = scr.nz; scr.rewind();
    auto rg = std::make_shared<Regr>();
    for (int k = 0; k + 1 < steps; ++k) {
        double c = vp_pos(nm("a", k).c_str());
        rg->coef.emplace_back((pat == 3 || (pat < 2 && k % 2 == pat)) ? -c : c, 1.0);
    }
    double v = am(make(AMER, p), model, rg)->calculatePrice(n);
    vp_assert(scr.nz == used, "number of draws");
    check(v, path, *rg, 0, 0.0, r, p.T);
    vp_reach("longer");
}
VP_TEST(bridge_many_paths) { longbridge(longpaths(), 2); }
VP_TEST(bridge_many_dates) { longbridge(1, vp_int("dates", 4, vp_tier() ? 10 : 9)); }
//@ tier thorough
VP_TEST(put_3x3) { standard(3, 3, 1); }
VP_TEST(call_1x4) { standard(1, 4, 0); }
VP_TEST(put_2x4) { standard(2, 4, 1); }
VP_TEST(bridge_2x3) { bridge(2, 3, true); }
