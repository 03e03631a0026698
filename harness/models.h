// shared by the model harnesses: scripted draws, law extraction
#ifndef VP_MODELS_H
#define VP_MODELS_H
#include "vp.h"
#include <memory>
#include <string>
#include <vector>
#include "market_data/market_data.h"
#include "random/number_generator/base_generator.h"
#include "model/base_model.h"
using namespace OptionPricer;
inline std::string nm(const char* b, int i) { std::string d; do { d.insert(d.begin(), char('0' + i % 10)); i /= 10; } while (i); return b + d; }
struct Gen final : NumberGenerator {   // a generator that hands every request to the distribution's sampler once
    mutable std::mt19937* mt;
    mutable int calls = 0;
    explicit Gen(unsigned dim) : NumberGenerator(dim, 7u) { static std::mt19937 m; mt = &m; }
    double operator()(Distribution& d) const override { ++calls; return d(*mt); }
};
// the draws of one simulation: standardised normals, gammas, poissons... taken from the script in the order of request
struct Script {
    int nz = 0, ng = 0, nu = 0, ne = 0, np = 0;
    double z[600], g[300], u[300], e[300]; int p[300];
    double ga[300], gb[300], ua[300], ub[300], ea[300], pa[300], za[600], zb[600];
    void rewind() { nz = ng = nu = ne = np = 0; }
};
inline Script scr;
#define VP_MODELS_DRAW extern "C" double vp_draw(int kind, double a, double b) { \
    vp_assert(scr.nz < 600 && scr.ng < 300 && scr.nu < 300 && scr.ne < 300 && scr.np < 300, "number of draws"); \
    if (kind == 0) { int i = scr.nz++; scr.za[i] = a; scr.zb[i] = b; return a + b * scr.z[i]; } \
    if (kind == 1) { int i = scr.ne++; scr.ea[i] = a; return scr.e[i]; } \
    if (kind == 2) { int i = scr.ng++; scr.ga[i] = a; scr.gb[i] = b; return scr.g[i]; } \
    if (kind == 3) { int i = scr.nu++; scr.ua[i] = a; scr.ub[i] = b; return scr.u[i]; } \
    int i = scr.np++; scr.pa[i] = a; return (double)scr.p[i]; }
struct World {
    std::shared_ptr<MarketData> md = MarketData::getInstance();
    double S, v, r, c = 0, T; bool hc;
    explicit World(bool coupon) : hc(coupon) {
        S = vp_pos("S"); v = vp_nonneg("sigma"); r = vp_double("r"); T = vp_pos("T");
        md->setR(r);
        if (hc) { c = vp_range("c", 0, 1); md->addStock("A", S, v, c); } else md->addStock("A", S, v);
    }
};
inline std::vector<double> logret(const std::vector<double>& p, double S) {
    std::vector<double> x(p.size());
    for (size_t j = 0; j < p.size(); ++j) x[j] = std::log(p[j] / (j ? p[j - 1] : S));
    return x;
}
// Law of the log-returns as affine functions of the standard normals in the script (given all other draws): for every value of the
// normals  x_j(z) = m_j + sum_k g_jk z_k; returns m and g (n draws per path)
struct Affine { std::vector<double> m; std::vector<std::vector<double>> g; int n; };
template <class F> inline Affine affine(F&& simulate, int maxz) {   // simulate(): log-returns (and other tracked quantities)
    Affine a;
    for (int k = 0; k < maxz; ++k) scr.z[k] = 0;
    scr.rewind();
    a.m = simulate(); a.n = scr.nz;
    vp_assert(a.n <= maxz, "draws per path");
    for (int k = 0; k < a.n; ++k) {
        scr.rewind(); scr.z[k] = 1;
        auto x = simulate();
        for (size_t j = 0; j < x.size(); ++j) x[j] -= a.m[j];
        a.g.push_back(x); scr.z[k] = 0;
    }
    for (int k = 0; k < a.n; ++k) scr.z[k] = vp_double(nm("z", k).c_str());
    scr.rewind();
    auto x = simulate();
    vp_assert(scr.nz == a.n, "number of normal draws does not depend on their values");
    for (size_t j = 0; j < x.size(); ++j) {
        double y = a.m[j];
        for (int k = 0; k < a.n; ++k) y += a.g[k][j] * scr.z[k];
        vp_assert_eq(x[j], y, "log-return is affine in the normal draws");
    }
    return a;
}
// Long paths: every step moves like the single step of a one-step path over T/n with the same draws (whose law the short tests establish)
inline int longsteps() {
    int i = vp_int("size", 1, vp_tier() ? 68 : 36);
    static const int big[] = {52, 100, 252, 260};
    int lim = vp_tier() ? 64 : 32;
    return i <= lim ? i : big[i - lim - 1];
}
inline void script_normals(int n) { for (int k = 0; k < n; ++k) scr.z[k] = vp_double(nm("z", k).c_str()); }
template <class One> inline void homogeneous(const World& w, const std::vector<double>& p, int n, One one) {   // one(j): the one-step model of step j
    vp_assert((int)p.size() == n, "one price per step of a long path");
    int nz = scr.nz, np = scr.np, ng = scr.ng, nu = scr.nu, ne = scr.ne;
    scr.rewind();
    for (int j = 0; j < n; ++j) {
        std::vector<double> q = one(j)->simulatePrices(w.T / n);
        vp_assert(q.size() == 1, "one price of a one-step path");
        vp_assert_eq(std::log(p[j] / (j ? p[j - 1] : w.S)), std::log(q[0] / w.S), "every step of a long path has the law of a single step");
    }
    vp_assert(scr.nz == nz && scr.np == np && scr.ng == ng && scr.nu == nu && scr.ne == ne, "fresh draws at every step of a long path");
    vp_reach("long path");
}
// One model simulated again and again (other maturities, other draws, other data in between) behaves like a newly made one each time
template <class Make, class Reset> inline void in_turn(World& w, int n, Make make, Reset reset) {
    auto used = make();
    bool change = vp_bool("data change in between"); double T2 = vp_pos("T2");
    for (int run = 0; run < 3; ++run) {
        double T = run == 1 ? T2 : w.T;
        for (int k = 0; k < 2 * n + 8; ++k) scr.z[k] = vp_double(nm(run == 0 ? "za" : run == 1 ? "zb" : "zc", k).c_str());
        if (run == 1 && change) {
            w.md->updateStockPrice("A", vp_pos("S2")); w.md->setR(vp_double("r2"));
            if (w.hc) w.md->updateStockCoupon("A", vp_range("c2", 0, 1));
        }
        auto fresh = make();
        scr.rewind(); reset(run); std::vector<double> p = used->simulatePrices(T);
        int nz = scr.nz, np = scr.np, ng = scr.ng, nu = scr.nu, ne = scr.ne;
        Script was = scr;
        scr.rewind(); reset(run); std::vector<double> q = fresh->simulatePrices(T);
        vp_assert(p.size() == q.size(), "as many prices as a new model");
        vp_assert(scr.nz == nz && scr.np == np && scr.ng == ng && scr.nu == nu && scr.ne == ne, "the draws a new model takes");
        for (int k = 0; k < nz; ++k) { vp_assert_eq(was.za[k], scr.za[k], "law of the normal draws"); vp_assert_eq(was.zb[k], scr.zb[k], "law of the normal draws"); }
        for (int k = 0; k < ng; ++k) { vp_assert_eq(was.ga[k], scr.ga[k], "law of the gamma draws"); vp_assert_eq(was.gb[k], scr.gb[k], "law of the gamma draws"); }
        for (int k = 0; k < nu; ++k) { vp_assert_eq(was.ua[k], scr.ua[k], "law of the uniform draws"); vp_assert_eq(was.ub[k], scr.ub[k], "law of the uniform draws"); }
        for (int k = 0; k < ne; ++k) vp_assert_eq(was.ea[k], scr.ea[k], "law of the exponential draws");
        for (int k = 0; k < np; ++k) vp_assert_eq(was.pa[k], scr.pa[k], "law of the jump counts");
        for (int j = 0; j < n; ++j) vp_assert_eq(p[j], q[j], "a model simulated before behaves like a new one");
        scr.rewind(); reset(run); vp_assert_eq(used->simulatePriceAtMaturity(T), q.back(), "maturity price of a model simulated before");
    }
    vp_reach("simulated in turn");
}
inline double cov(const Affine& a, int i, int j) { double s = 0; for (int k = 0; k < a.n; ++k) s += a.g[k][i] * a.g[k][j]; return s; }
#endif
