// C27 the finite-difference march
//@ mode real
//@ bound J = 3..5 nodes and N = 2..5 time levels (up to 7 and 9 thorough); every domain size and maturity, every initial, boundary and coefficient value, every spot; explicit, implicit and Crank-Nicolson solvers; also up to 65 nodes (101 thorough) with 2 levels and up to 33 levels (51) with 3 nodes
//@ assume the time march is decided in bit-precise double arithmetic for maturities in [1e-3, 100] (number and order of steps for every N, the end point where N-1 is a power of two); grid, price and idempotence in exact real arithmetic; the matrix solver of the implicit schemes answers with arbitrary values (C28 covers the system)
#include "fdm.h"
//@ budget 300
//@ opt feas_timeout 300
//@ opt absvar 1
// records where it is evaluated
struct Probe { std::vector<double> init, left, right; double l = 0, r = 0; };
struct ProbePDE final : ConvectionDiffusionPDE {
    std::shared_ptr<Probe> k;
    explicit ProbePDE(std::shared_ptr<Probe> k_) : k(std::move(k_)) {}
    double diffusion(const double&, const double&) const override { return 0; }
    double convection(const double&, const double&) const override { return 0; }
    double reaction(const double&, const double&) const override { return 0; }
    double rightHandSide(const double&, const double&) const override { return 0; }
    double boundaryLeft(const double& t, const double&) const override { k->left.push_back(t); return k->l; }
    double boundaryRight(const double& t, const double&) const override { k->right.push_back(t); return k->r; }
    double initialCondition(const double& x) const override { k->init.push_back(x); return 1 + (double)k->init.size(); }
};
template <class S> static std::unique_ptr<FDMSolver> probe(double xDom, int J, double tDom, int N, std::shared_ptr<Probe> k, std::shared_ptr<Interpolation> ip, std::shared_ptr<MatrixSolver> ms) {
    Par p; auto o = std::dynamic_pointer_cast<EuropeanOption>(make(EURO, p));
    auto pde = std::make_unique<ProbePDE>(k);
    if constexpr (std::is_same_v<S, EulerExplicitFDM>) return std::make_unique<S>(xDom, J, tDom, N, std::move(pde), o, MD(), ip);
    else return std::make_unique<S>(xDom, J, tDom, N, std::move(pde), o, MD(), ip, ms);
}
// J equally spaced nodes of [0, xDom] carrying the initial condition; times n tDom / (N-1); price = interpolation at the spot
template <class S> static void grid(int J, int N) {
    double S0 = vp_pos("spot"), xDom = vp_pos("xDom"), tDom = vp_pos("tDom"), ans = vp_double("answer");
    MD()->addStock("A", 100.0, 0.2);
    auto k = std::make_shared<Probe>(); auto ip = std::make_shared<Nearest>(); auto ms = std::make_shared<Recorder>();
    ip->out = ans; k->l = vp_double("l"); k->r = vp_double("r");
    auto s = probe<S>(xDom, J, tDom, N, k, ip, ms);
    vp_assert((int)k->init.size() == J, "the initial condition is evaluated on every node");
    for (int j = 0; j < J; ++j) vp_assert_eq(k->init[j] * (J - 1), j * xDom, "initial condition on equally spaced nodes of the whole domain");
    MD()->updateStockPrice("A", S0);
    double price = s->calculatePrice();
    vp_assert(ip->calls >= 1, "the given interpolation is used");
    vp_assert_eq(price, ans, "the price is what the interpolation returns");
    vp_assert_eq(ip->s, S0, "interpolation at the current spot");
    vp_assert((int)ip->x.size() == J && (int)ip->y.size() == J, "interpolation over the whole grid");
    for (int j = 0; j < J; ++j) vp_assert_eq(ip->x[j] * (J - 1), j * xDom, "grid nodes equally spaced over the whole domain");
    vp_assert((int)k->left.size() == N - 1 && (int)k->right.size() == N - 1, "exactly N-1 time steps");
    for (int n = 1; n < N; ++n) {
        vp_assert_eq(k->left[n - 1] * (N - 1), n * tDom, "equal time steps up to the maturity");
        vp_assert_eq(k->right[n - 1] * (N - 1), n * tDom, "equal time steps up to the maturity (right)");
    }
    vp_assert_eq(ip->y[0], k->l, "final left value"); vp_assert_eq(ip->y[J - 1], k->r, "final right value");
    // idempotent: asking again changes nothing
    auto y = ip->y; auto w = s->solve();
    vp_assert((int)w.size() == J, "one value per node");
    for (int j = 0; j < J; ++j) vp_assert_eq(w[j], y[j], "the solved values are the interpolated ones");
    double S1 = vp_pos("spot1"); MD()->updateStockPrice("A", S1);
    double again = s->calculatePrice();
    vp_assert_eq(again, ans, "asking again gives the same price");
    vp_assert_eq(ip->s, S1, "interpolation at the spot current when asked");
    for (int j = 0; j < J; ++j) { vp_assert_eq(ip->y[j], y[j], "asking again keeps the values"); vp_assert_eq(ip->x[j] * (J - 1), j * xDom, "asking again keeps the grid"); }
    vp_reach("solved");
}
VP_TEST(grid_explicit) { grid<EulerExplicitFDM>(vp_int("J", 3, 5), vp_int("N", 2, 4)); }
VP_TEST(grid_implicit) { grid<EulerImplicitFDM>(vp_int("J", 3, 4), vp_int("N", 2, 3)); }
VP_TEST(grid_cn) { grid<CrankNicolsonFDMSolver>(vp_int("J", 3, 4), vp_int("N", 2, 3)); }
static int nodes() { static const int s[] = {6, 8, 9, 11, 16, 17, 21, 33, 51, 65, 101}; return s[vp_int("nodes", 0, vp_tier() ? 10 : 9)]; }
static int levels() { static const int s[] = {6, 8, 9, 11, 17, 21, 33, 51}; return s[vp_int("levels", 0, vp_tier() ? 7 : 6)]; }
VP_TEST(wide_explicit) { grid<EulerExplicitFDM>(nodes(), 2); }
VP_TEST(wide_implicit) { grid<EulerImplicitFDM>(nodes(), 2); }
VP_TEST(wide_cn) { grid<CrankNicolsonFDMSolver>(nodes(), 2); }
VP_TEST(many_levels_explicit) { grid<EulerExplicitFDM>(3, levels()); }
VP_TEST(many_levels_implicit) { grid<EulerImplicitFDM>(3, levels()); }
VP_TEST(many_levels_cn) { grid<CrankNicolsonFDMSolver>(3, levels()); }
// solve() first, price afterwards; and arbitrary data with the default interpolation
template <class S> static void defaults(int J) {
    double S0 = vp_pos("spot"), dx = vp_pos("dx");
    MD()->addStock("A", S0, 0.2);
    Par p; auto o = std::dynamic_pointer_cast<EuropeanOption>(make(EURO, p));
    double dt = vp_pos("dt");
    auto k = coef(J, 2, dx * (J - 1), dt); k->dx = dx; k->dt = dt;
    for (auto* m : {&k->a, &k->b, &k->c}) for (auto& row : *m) for (auto& v : row) v = 0;
    auto s = make_solver<S>(dx * (J - 1), J, dt, 2, k, o, nullptr, std::make_shared<Recorder>());
    auto w = s->solve(), w2 = s->solve();
    for (int j = 0; j < J; ++j) vp_assert_eq(w[j], w2[j], "solving twice gives the same values");
    int c = vp_int("cell", 0, J - 2);
    vp_assume(S0 >= c * dx && S0 <= (c + 1) * dx);
    double price = s->calculatePrice();
    vp_assert_eq((price - w[c]) * dx, (w[c + 1] - w[c]) * (S0 - c * dx), "linear interpolation by default");
    vp_assert_eq(s->calculatePrice(), price, "asking again gives the same price");
    vp_reach("solved");
}
VP_TEST(default_explicit) { defaults<EulerExplicitFDM>(vp_int("J", 3, 5)); }
VP_TEST(default_implicit) { defaults<EulerImplicitFDM>(vp_int("J", 3, 4)); }
VP_TEST(default_cn) { defaults<CrankNicolsonFDMSolver>(vp_int("J", 3, 4)); }
// the number of steps in double arithmetic
//@ mode fp
template <class S> static void march(int N) {
    double tDom = vp_range("tDom", 1e-3, 100.0);
    MD()->addStock("A", 100.0, 0.2);
    auto k = std::make_shared<Probe>(); auto ip = std::make_shared<Nearest>();
    auto s = probe<S>(64.0, 3, tDom, N, k, ip, nullptr);
    s->solve();
    vp_assert((int)k->left.size() == N - 1 && (int)k->right.size() == N - 1, "exactly N-1 time steps in double arithmetic");
    double T = k->left[N - 2], tol = tDom * 0x1p-40;
    if (((N - 1) & (N - 2)) == 0)     // the step is exact
        vp_assert(T - tDom <= tol && tDom - T <= tol, "the march ends at the maturity");
    for (int n = 1; n + 1 < N; ++n) vp_assert(k->left[n] > k->left[n - 1], "time increases");
    s->calculatePrice();
    vp_assert((int)k->left.size() == N - 1, "no further step is taken when the price is asked");
    vp_reach("marched");
}
VP_TEST(march_2) { march<EulerExplicitFDM>(2); }
VP_TEST(march_3) { march<EulerExplicitFDM>(3); }
VP_TEST(march_4) { march<EulerExplicitFDM>(4); }
VP_TEST(march_5) { march<EulerExplicitFDM>(5); }
VP_TEST(march_6) { march<EulerExplicitFDM>(6); }
//@ tier thorough
VP_TEST(march_7) { march<EulerExplicitFDM>(7); }
VP_TEST(march_9) { march<EulerExplicitFDM>(9); }
VP_TEST(march_11) { march<EulerExplicitFDM>(11); }
//@ mode real
VP_TEST(grid_explicit_wide) { grid<EulerExplicitFDM>(7, vp_int("N", 2, 9)); }
VP_TEST(grid_implicit_wide) { grid<EulerImplicitFDM>(6, vp_int("N", 2, 5)); }
VP_TEST(grid_cn_wide) { grid<CrankNicolsonFDMSolver>(6, vp_int("N", 2, 5)); }
