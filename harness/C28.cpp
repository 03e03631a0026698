// C28 theta-scheme steps
//@ mode real
//@ bound J = 3..5 nodes, N = 2..3 time levels (J = 6, N = 4 thorough); every domain size, every value of the coefficients, source, boundary and initial data on the grid; also 6..17 nodes (33 thorough) with 2 levels and up to 17 levels with 3 nodes on a grid of fixed spacing and diagonally dominant coefficients
//@ assume exact real arithmetic; the linear solver of the implicit schemes is replaced by an arbitrary exact solution of the system it is given (C22/C23 cover the real solvers)
#include "fdm.h"
//@ budget 300
//@ opt feas_timeout 300
//@ opt absvar 1
static double L(const Coef& k, int n, int j, const std::vector<double>& u) {
    return k.a[n][j] * (u[j + 1] - 2 * u[j] + u[j - 1]) / (k.dx * k.dx) + k.b[n][j] * (u[j + 1] - u[j - 1]) / (2 * k.dx) + k.c[n][j] * u[j] - k.f[n][j];
}
// large: many nodes or levels, a grid of fixed spacing and diagonally dominant coefficients (the solvers warn otherwise)
template <class S> static void step(int J, int N, double theta, bool large = false) {
    MD()->addStock("A", 100.0, 0.2);
    Par p; auto o = std::dynamic_pointer_cast<EuropeanOption>(make(EURO, p));
    double dx = large ? 1.5 : vp_pos("dx"), dt = large ? 0.25 : vp_pos("dt");
    auto k = coef(J, N, dx * (J - 1), dt * (N - 1));
    k->dx = dx; k->dt = dt;
    if (large) for (int n = 0; n < N; ++n) for (int j = 1; j + 1 < J; ++j)
    { vp_assume(k->a[n][j] >= 0); vp_assume(k->c[n][j] <= 0); vp_assume(k->b[n][j] * dx <= 2 * k->a[n][j]); vp_assume(-k->b[n][j] * dx <= 2 * k->a[n][j]); }
    // theta-scheme residual of interior node j in the step to level n
    auto resid = [&](int n, int j, const std::vector<double>& old, const std::vector<double>& neu) {
        double r = (neu[j] - old[j]) / dt;
        if (theta != 0) r -= theta * L(*k, n, j, neu);
        if (theta != 1) r -= (1 - theta) * L(*k, n - 1, j, old);
        return r;
    };
    auto edges = [&](const std::vector<double>& u, int n) {
        vp_assert((int)u.size() == J, "one value per node");
        vp_assert_eq(u[0], k->left[n], "left boundary value at the new time");
        vp_assert_eq(u[J - 1], k->right[n], "right boundary value at the new time");
    };
    auto ms = std::make_shared<Recorder>();
    if (theta == 0) {
        // explicit: the values before the last step are those of a run with fewer levels and the same step
        std::vector<double> u = k->u0;
        for (int n = 1; n < N; ++n) {
            auto w = make_solver<S>(dx * (J - 1), J, dt * n, n + 1, k, o, std::make_shared<Nearest>(), ms)->solve();
            edges(w, n);
            for (int j = 1; j + 1 < J; ++j) vp_assert_eq(resid(n, j, u, w), 0, "theta-scheme at an interior node");
            u = w;
        }
        vp_reach("stepped");
        return;
    }
    // implicit: each step asks for x with A x = b and stores x. A x = b is the theta-scheme exactly when, for every
    // row, x -> (A x - b)_i and the scheme's residual are proportional functions of the new interior values x (for a
    // regular A none of them vanishes identically): f(x) g(y) = f(y) g(x) for all x, y.
    auto w = make_solver<S>(dx * (J - 1), J, dt * (N - 1), N, k, o, std::make_shared<Nearest>(), ms)->solve();
    vp_assert((int)ms->sys.size() == N - 1, "the given matrix solver is used once per step");
    std::vector<double> old = k->u0;
    for (int n = 1; n < N; ++n) {
        const auto& s = ms->sys[n - 1];
        vp_assert((int)s.x.size() == J - 2, "the complete system is solved");
        auto full = [&](std::vector<double> v) { v.insert(v.begin(), k->left[n]); v.push_back(k->right[n]); return v; };
        std::vector<double> y; for (int i = 0; i < J - 2; ++i) y.push_back(vp_double(nm2("y", n, i).c_str()));
        auto row = [&](int i, const std::vector<double>& v) { double r = -s.b[i]; for (int j = 0; j < J - 2; ++j) r += s.A[i][j] * v[j]; return r; };
        auto xs = full(s.x), ys = full(y);
        for (int i = 0; i < J - 2; ++i)
            vp_assert_eq(row(i, s.x) * resid(n, i + 1, old, ys), row(i, y) * resid(n, i + 1, old, xs), "the system solved is the theta-scheme");
        old = xs;
    }
    edges(w, N - 1);
    for (int j = 1; j + 1 < J; ++j) vp_assert_eq(w[j], old[j], "the values are the solution of the last system");
    vp_reach("stepped");
}
// the given or the default matrix solver really computes the step (the smallest grid, a 1 x 1 system)
template <class S> static void solved(double theta, std::shared_ptr<MatrixSolver> ms) {
    MD()->addStock("A", 100.0, 0.2);
    Par p; auto o = std::dynamic_pointer_cast<EuropeanOption>(make(EURO, p));
    double dx = vp_pos("dx"), dt = vp_pos("dt");
    auto k = coef(3, 2, 2 * dx, dt);
    k->dx = dx; k->dt = dt;
    double diag = 1 / dt + theta * (2 * k->a[1][1] / (dx * dx) - k->c[1][1]);
    vp_assume(diag > 1e-3 || diag < -1e-3);          // a regular step
    auto w = make_solver<S>(2 * dx, 3, dt, 2, k, o, std::make_shared<Nearest>(), ms)->solve();
    vp_assert((int)w.size() == 3, "one value per node");
    double r = (w[1] - k->u0[1]) / dt - theta * L(*k, 1, 1, w);
    if (theta != 1) r -= (1 - theta) * L(*k, 0, 1, k->u0);
    vp_assert_eq(r, 0, "theta-scheme at the interior node");
    vp_reach("stepped");
}
VP_TEST(explicit_step) { step<EulerExplicitFDM>(vp_int("J", 3, 5), 2, 0); }
VP_TEST(explicit_steps) { step<EulerExplicitFDM>(vp_int("J", 3, 4), 3, 0); }
VP_TEST(implicit_step) { step<EulerImplicitFDM>(vp_int("J", 3, 5), 2, 1); }
VP_TEST(implicit_steps) { step<EulerImplicitFDM>(vp_int("J", 3, 4), 3, 1); }
VP_TEST(cn_step) { step<CrankNicolsonFDMSolver>(vp_int("J", 3, 5), 2, 0.5); }
VP_TEST(cn_steps) { step<CrankNicolsonFDMSolver>(vp_int("J", 3, 4), 3, 0.5); }
VP_TEST(implicit_default) { solved<EulerImplicitFDM>(1, nullptr); }
VP_TEST(cn_default) { solved<CrankNicolsonFDMSolver>(0.5, nullptr); }
static int nodes() { static const int s[] = {6, 7, 8, 9, 10, 12, 16, 17, 21, 33}; return s[vp_int("nodes", 0, vp_tier() ? 9 : 7)]; }
VP_TEST(explicit_wide) { step<EulerExplicitFDM>(nodes(), 2, 0, true); }
VP_TEST(implicit_wide) { step<EulerImplicitFDM>(nodes(), 2, 1, true); }
VP_TEST(cn_wide) { step<CrankNicolsonFDMSolver>(nodes(), 2, 0.5, true); }
VP_TEST(explicit_long) { step<EulerExplicitFDM>(3, vp_int("levels", 5, 9), 0, true); }
VP_TEST(implicit_long) { step<EulerImplicitFDM>(3, nodes(), 1, true); }
VP_TEST(cn_long) { step<CrankNicolsonFDMSolver>(3, nodes(), 0.5, true); }
//@ tier thorough
VP_TEST(explicit_both) { step<EulerExplicitFDM>(6, 4, 0); }
VP_TEST(implicit_both) { step<EulerImplicitFDM>(4, 4, 1); }
VP_TEST(cn_both) { step<CrankNicolsonFDMSolver>(4, 4, 0.5); }
