// C25 regressions: least squares and ridge normal equations, lasso soft-thresholding, rejected lambda
//@ mode real
//@ bound one column: 1..3 rows (ridge), 1..2 rows (least squares), 1 row (lasso), every entry of modulus at most 100, every response, every lambda in [0,100], exact real arithmetic, normal matrix at least 1e-3 (least squares: entries of modulus at least 1e-3); two columns: ridge with 1 row, and 2-3 column concrete designs with every response in [-10,10] (and every lambda for ridge 2 columns); also fixed designs of up to 10 rows and 4 columns (33 x 7 thorough), every response (lasso: one arbitrary entry of the response); columns of very different size (powers of prices around 10 and of 0.05), one arbitrary entry of the response; one object solving two fixed 3 x 2 designs in turn, the second with every response
//@ assume in the concrete-design tests the decomposition of the concrete design matrix is computed in double arithmetic and the response stays symbolic; the result is compared up to 1e-6
#include <memory>
#include "linsys.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/lasso.h"
struct Data {
    Eigen::MatrixXd A; Eigen::VectorXd y; int n, m;
    Data(int n_, int m_, bool constant = false) : A(n_, m_), y(n_), n(n_), m(m_) {
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < m; ++j) A(i, j) = constant && j == 0 ? vp_exact(1) : vp_range(nm2("a", i, j).c_str(), -100, 100);
            y[i] = vp_range(nm2("y", i, 0).c_str(), -100, 100);
        }
    }
    Data(const double* M, int n_, int m_) : A(n_, m_), y(n_), n(n_), m(m_) {
        for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) A(i, j) = vp_exact(M[i * m + j]); y[i] = vp_range(nm2("y", i, 0).c_str(), -10, 10); }
    }
    double gram(int i, int j) const { double s = 0; for (int k = 0; k < n; ++k) s += A(k, i) * A(k, j); return s; }
    double rhs(int i) const { double s = 0; for (int k = 0; k < n; ++k) s += A(k, i) * y[k]; return s; }
};
static double soft(double b, double l) { return b > l ? b - l : b < -l ? b + l : 0.0; }
static void normal(const Data& d, const Eigen::VectorXd& b, double lambda, double tol) {
    vp_assert((int)b.size() == d.m, "one coefficient per column");
    for (int i = 0; i < d.m; ++i) {
        double l = lambda * b[i];
        for (int j = 0; j < d.m; ++j) l += d.gram(i, j) * b[j];
        if (tol == 0) vp_assert_eq(l, d.rhs(i), "normal equations");
        else { vp_assert_le(l - d.rhs(i), tol, "normal equations"); vp_assert_le(d.rhs(i) - l, tol, "normal equations"); }
    }
}
static void ridge(int n, int m, bool constant = false) {
    Data d(n, m, constant);
    double lambda = vp_range("lambda", 0, 100);
    if (m == 1) vp_assume(d.gram(0, 0) + lambda >= 1e-3);
    else vp_assume(lambda >= 1e-3);
    RidgeRegression r(lambda);
    Eigen::VectorXd b = r.solve(d.A, d.y);
    vp_reach("solved");
    normal(d, b, lambda, 0);
}
VP_TEST(ridge1x1) { ridge(1, 1); }
VP_TEST(ridge3x1) { ridge(3, 1); }
VP_TEST(ridge1x2) { ridge(1, 2); }
static void ls(int n) {
    Data d(n, 1);
    for (int i = 0; i < n; ++i) vp_assume(d.A(i, 0) * d.A(i, 0) >= 1e-6);   // away from the library's underflow thresholds
    LeastSquaresRegression r;
    Eigen::VectorXd b = r.solve(d.A, d.y);
    vp_reach("solved");
    normal(d, b, 0, 0);
}
VP_TEST(ls1) { ls(1); }
VP_TEST(ls2) { ls(2); }
static void lasso(int n) {
    Data d(n, 1);
    double lambda = vp_range("lambda", 0, 100);
    vp_assume(d.gram(0, 0) >= 1e-3);
    LassoRegression r(lambda);
    Eigen::VectorXd b = r.solve(d.A, d.y);
    vp_reach("solved");
    vp_assert((int)b.size() == 1, "one coefficient per column");
    vp_assert_eq(b[0], soft(d.rhs(0) / d.gram(0, 0), lambda), "soft-thresholded least squares");
}
VP_TEST(lasso1) { lasso(1); }
VP_TEST(lambda) {
    double l = vp_double("lambda"); bool ridge = vp_bool("ridge");
    int oc = vp_outcome<std::invalid_argument>([&] { if (ridge) RidgeRegression r(l); else LassoRegression r(l); });
    vp_assert(oc == (l < 0 ? 1 : 0), "negative lambda rejected");
    vp_reach("constructed");
}
//@ opt round 1
static const double D32[] = {1, 2, 1, -1, 1, 0.5}, D43[] = {1, 0.5, 0.25, 1, 1, 1, 1, 2, 4, 1, -1, 1}, D22[] = {3, 1, 1, 2};
static void ls_design(const double* M, int n, int m) {
    Data d(M, n, m);
    LeastSquaresRegression r;
    Eigen::VectorXd b = r.solve(d.A, d.y);
    vp_reach("solved");
    normal(d, b, 0, 1e-6);
}
VP_TEST(ls_design22) { ls_design(D22, 2, 2); }
VP_TEST(ls_design32) { ls_design(D32, 3, 2); }
VP_TEST(ls_design43) { ls_design(D43, 4, 3); }
static void ridge_design(const double* M, int n, int m, double lambda) {
    Data d(M, n, m);
    RidgeRegression r(lambda);
    Eigen::VectorXd b = r.solve(d.A, d.y);
    vp_reach("solved");
    normal(d, b, lambda, 1e-6);
}
VP_TEST(ridge_design22) { ridge_design(D22, 2, 2, vp_range("lambda", 0, 100)); }
VP_TEST(ridge_design32) { ridge_design(D32, 3, 2, vp_range("lambda", 0, 100)); }
VP_TEST(ridge_design43) { ridge_design(D43, 4, 3, vp_exact(0.3)); }
VP_TEST(lasso_design32) {
    Data d(D32, 3, 2);
    double lambda = vp_range("lambda", 0, 100);
    LassoRegression r(lambda); LeastSquaresRegression l;
    Eigen::VectorXd b = r.solve(d.A, d.y), c = l.solve(d.A, d.y);
    vp_reach("solved");
    for (int i = 0; i < 2; ++i) { vp_assert_le(b[i], soft(c[i], lambda) + 1e-6, "soft-thresholded least squares"); vp_assert_le(soft(c[i], lambda), b[i] + 1e-6, "soft-thresholded least squares"); }
    // independent of the least-squares class: the thresholded coefficients satisfy the normal equations before thresholding
    double g00 = d.gram(0, 0), g01 = d.gram(0, 1), g11 = d.gram(1, 1), dt = g00 * g11 - g01 * g01;
    double e[2] = {(g11 * d.rhs(0) - g01 * d.rhs(1)) / dt, (g00 * d.rhs(1) - g01 * d.rhs(0)) / dt};
    for (int i = 0; i < 2; ++i) { vp_assert_le(b[i], soft(e[i], lambda) + 1e-6, "soft-thresholded least squares"); vp_assert_le(soft(e[i], lambda), b[i] + 1e-6, "soft-thresholded least squares"); }
}
// larger designs (fixed, well conditioned), every response; the same object was asked about another system before
static void large(int type) {
    static const int ns[] = {5, 6, 8, 9, 10, 16, 17, 33}, ms[] = {1, 2, 3, 4, 5, 7};
    int n = ns[vp_int("rows", 0, vp_tier() ? 7 : 4)], m = ms[vp_int("columns", 0, vp_tier() ? 5 : 3)];
    if (m > n) m = n;
    std::vector<double> M(n * m);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) M[i * m + j] = j == 0 ? 1 : ((i * (j + 2) + j * j) % 7 - 3) * 0.5 + (i % m == j ? 3 : 0);
    Data d(M.data(), n, m), before(D32, 3, 2);
    if (type == 2) { int at = vp_int("arbitrary response", 0, 2) * (n - 1) / 2; for (int i = 0; i < n; ++i) if (i != at) d.y[i] = vp_exact(2.5 * (i % 3) - 1); }   // the others fixed
    if (type) for (int i = 0; i < 3; ++i) before.y[i] = vp_exact(1.0 + i);
    std::unique_ptr<Regression> r;
    double lambda = type == 0 ? 0 : 0.75;
    if (type == 0) r = std::make_unique<LeastSquaresRegression>(); else if (type == 1) r = std::make_unique<RidgeRegression>(lambda); else r = std::make_unique<LassoRegression>(lambda);
    if (vp_bool("used")) (void)r->solve(before.A, before.y);
    Eigen::MatrixXd A0 = d.A; Eigen::VectorXd y0 = d.y;
    Eigen::VectorXd b = r->solve(d.A, d.y);
    vp_reach("solved");
    for (int i = 0; i < n; ++i) vp_assert_eq(d.y[i], y0[i], "the response is left alone");
    if (type < 2) { normal(d, b, lambda, 1e-6); return; }
    LeastSquaresRegression l; Eigen::VectorXd c = l.solve(A0, y0);
    normal(d, c, 0, 1e-6);
    vp_assert((int)b.size() == m, "one coefficient per column");
    for (int i = 0; i < m; ++i) { vp_assert_le(b[i], soft(c[i], lambda) + 1e-6, "soft-thresholded least squares"); vp_assert_le(soft(c[i], lambda), b[i] + 1e-6, "soft-thresholded least squares"); }
}
VP_TEST(ls_large) { large(0); }
VP_TEST(ridge_large) { large(1); }
VP_TEST(lasso_large) { large(2); }
// columns of very different size, as the powers of a price make them
static void scaled(int type) {
    int m = vp_int("columns", 2, vp_tier() ? 4 : 3), n = 6; std::vector<double> M(n * m);
    double unit = vp_bool("large") ? 10.0 : 0.05;
    for (int i = 0; i < n; ++i) { double x = unit * (1 + 0.25 * i), q = 1; for (int j = 0; j < m; ++j, q *= x) M[i * m + j] = q; }
    Data d(M.data(), n, m); for (int i = 0; i < n; ++i) if (i != 2) d.y[i] = vp_exact(2.5 * (i % 3) - 1);
    double lambda = type == 0 ? 0 : 0.001;
    std::unique_ptr<Regression> r;
    if (type == 0) r = std::make_unique<LeastSquaresRegression>(); else if (type == 1) r = std::make_unique<RidgeRegression>(lambda); else r = std::make_unique<LassoRegression>(lambda);
    Eigen::VectorXd b = r->solve(d.A, d.y), c = b;
    vp_reach("solved");
    if (type < 2) { normal(d, b, lambda, 1e-5); return; }
    LeastSquaresRegression l; c = l.solve(d.A, d.y); normal(d, c, 0, 1e-5);
    for (int i = 0; i < m; ++i) { vp_assert_le(b[i], soft(c[i], lambda) + 1e-6, "soft-thresholded least squares"); vp_assert_le(soft(c[i], lambda), b[i] + 1e-6, "soft-thresholded least squares"); }
}
VP_TEST(ls_scaled) { scaled(0); }
VP_TEST(ridge_scaled) { scaled(1); }
VP_TEST(lasso_scaled) { scaled(2); }
// one object asked about two designs of the same shape, then about the first again
static void again(int type) {
    static const double E[4][6] = {{1, 2, 1, -1, 1, 0.5}, {1, 2, 1, 0.5, 1, -1}, {2, 1, -1, 1, 0.5, 1}, {1, 2, 3, -1, 0, -0.5}};   // same entries or same sum
    int i = vp_int("first", 0, 3), j = vp_int("second", 0, 3); vp_assume(i != j);
    Data p(E[i], 3, 2), q(E[j], 3, 2);
    for (int k = 0; k < 3; ++k) p.y[k] = vp_exact(2.0 - 1.5 * k);
    double lambda = type == 0 ? 0 : 0.75;
    std::unique_ptr<Regression> r;
    if (type == 0) r = std::make_unique<LeastSquaresRegression>(); else if (type == 1) r = std::make_unique<RidgeRegression>(lambda); else r = std::make_unique<LassoRegression>(lambda);
    for (const Data* d : {&p, &q, &p}) {
        Eigen::VectorXd b = r->solve(d->A, d->y);
        if (type < 2) { normal(*d, b, lambda, 1e-6); continue; }
        double g00 = d->gram(0, 0), g01 = d->gram(0, 1), g11 = d->gram(1, 1), dt = g00 * g11 - g01 * g01;
        double e[2] = {(g11 * d->rhs(0) - g01 * d->rhs(1)) / dt, (g00 * d->rhs(1) - g01 * d->rhs(0)) / dt};
        vp_assert((int)b.size() == 2, "one coefficient per column");
        for (int k = 0; k < 2; ++k) { vp_assert_le(b[k], soft(e[k], lambda) + 1e-6, "soft-thresholded least squares, on every call"); vp_assert_le(soft(e[k], lambda), b[k] + 1e-6, "soft-thresholded least squares, on every call"); }
    }
    vp_reach("solved");
}
VP_TEST(ls_again) { again(0); }
VP_TEST(ridge_again) { again(1); }
VP_TEST(lasso_again) { again(2); }
//@ mode fp
VP_TEST(lambda_double) {
    double l = vp_double("lambda"); bool ridge = vp_bool("ridge");
    int oc = vp_outcome<std::invalid_argument>([&] { if (ridge) RidgeRegression r(l); else LassoRegression r(l); });
    vp_assert(oc == (l >= 0 ? 0 : 1), "negative or NaN lambda rejected");
    vp_reach("constructed");
}
