// C24 basis functions: the named polynomial families, one row per point, one column per function
//@ mode real
//@ bound 1..6 functions (9 thorough), 1..3 points, every real value of the points; numbers of functions outside the bound are not explored; the zero count is rejected for every family; also up to 12 functions (20 thorough) at one point and 4 functions at up to 64 points (100); objects used three times with 2..4 functions and 1..3 points (4), two objects in turn
//@ assume exact real arithmetic
#include "vp.h"
#include <string>
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/laguerre.h"
using namespace OptionPricer;
static double fact(int n) { double f = vp_exact(1); for (int i = 2; i <= n; ++i) f *= i; return f; }
static double pw(double x, int n) { double p = vp_exact(1); for (int i = 0; i < n; ++i) p *= x; return p; }
static double binom(int n, int k) { return fact(n) / (fact(k) * fact(n - k)); }
static double sgn(int k) { return k % 2 ? -1 : 1; }
static double monomial(int n, double x) { return pw(x, n); }
static double chebyshev(int n, double x) {   // explicit sum, n >= 1
    if (n == 0) return 1;
    double s = 0;
    for (int k = 0; 2 * k <= n; ++k) s += sgn(k) * fact(n - k - 1) * n / (2 * fact(k) * fact(n - 2 * k)) * pw(2 * x, n - 2 * k);
    return s;
}
static double legendre(int n, double x) {
    double s = 0;
    for (int k = 0; 2 * k <= n; ++k) s += sgn(k) * binom(n, k) * binom(2 * n - 2 * k, n) * pw(x, n - 2 * k);
    return s / pw(vp_exact(2), n);
}
static double laguerre(int n, double x) {
    double s = 0;
    for (int k = 0; k <= n; ++k) s += sgn(k) * binom(n, k) / fact(k) * pw(x, k);
    return s;
}
template <class B> static void run(double (*ref)(int, double), int rows) {
    int n = vp_int("functions", 1, vp_tier() ? 9 : 6);
    Eigen::VectorXd x(rows), x0;
    for (int i = 0; i < rows; ++i) x[i] = vp_double((std::string("x") + char('0' + i)).c_str());
    x0 = x;
    B b(n);
    Eigen::MatrixXd M = b.generate(x);
    vp_reach("generated");
    vp_assert(M.rows() == rows && M.cols() == n, "one row per point, one column per function");
    for (int i = 0; i < rows; ++i) for (int k = 0; k < n; ++k) vp_assert_eq(M(i, k), ref(k, x0[i]), "k-th polynomial of the family");
}
VP_TEST(monomials) { run<MonomialBasisFunction>(monomial, vp_int("points", 1, 3)); }
VP_TEST(chebyshevs) { run<ChebyshevBasisFunction>(chebyshev, vp_int("points", 1, 3)); }
VP_TEST(legendres) { run<LegendreBasisFunction>(legendre, vp_int("points", 1, 3)); }
VP_TEST(laguerres) { run<LaguerreBasisFunction>(laguerre, vp_int("points", 1, 3)); }
// many functions at one arbitrary point, and many points; the object is asked about other points before
template <class B> static void large(double (*ref)(int, double), bool points) {
    static const int pts[] = {4, 5, 7, 8, 9, 16, 17, 33, 64, 100}, fns[] = {7, 8, 9, 10, 11, 12, 13, 16, 17, 20};
    int rows = points ? pts[vp_int("points", 0, vp_tier() ? 9 : 8)] : 1, n = points ? 4 : fns[vp_int("functions", 0, vp_tier() ? 9 : 5)];
    Eigen::VectorXd x(rows), z(2), x0;
    for (int i = 0; i < rows; ++i) x[i] = vp_double((std::string("x") + char('0' + i / 10) + char('0' + i % 10)).c_str());
    z[0] = vp_double("before0"); z[1] = vp_double("before1");
    x0 = x;
    B b(n);
    (void)b.generate(z);
    Eigen::MatrixXd M = b.generate(x);
    vp_reach("generated");
    vp_assert(M.rows() == rows && M.cols() == n, "one row per point, one column per function");
    for (int i = 0; i < rows; ++i) for (int k = 0; k < n; ++k) vp_assert_eq(M(i, k), ref(k, x0[i]), "k-th polynomial of the family, many functions or points");
}
VP_TEST(monomials_many) { large<MonomialBasisFunction>(monomial, vp_bool("points")); }
VP_TEST(chebyshevs_many) { large<ChebyshevBasisFunction>(chebyshev, vp_bool("points")); }
VP_TEST(legendres_many) { large<LegendreBasisFunction>(legendre, vp_bool("points")); }
VP_TEST(laguerres_many) { large<LaguerreBasisFunction>(laguerre, vp_bool("points")); }
// one object asked about several sets of points of the same size, and two objects with different numbers of functions in turn
template <class B> static void again(double (*ref)(int, double)) {
    int n = vp_int("functions", 2, 4), rows = vp_int("points", 1, vp_tier() ? 4 : 3); bool two = vp_bool("two objects");
    Eigen::VectorXd x(rows), y(rows);
    for (int i = 0; i < rows; ++i) { x[i] = vp_double((std::string("x") + char('0' + i)).c_str()); y[i] = vp_double((std::string("y") + char('0' + i)).c_str()); }
    B b(n), c(n + 1);
    auto same = [&](const Eigen::MatrixXd& M, const Eigen::VectorXd& v, int m) {
        vp_assert(M.rows() == rows && M.cols() == m, "one row per point, one column per function, on every call");
        for (int i = 0; i < rows; ++i) for (int k = 0; k < m; ++k) vp_assert_eq(M(i, k), ref(k, v[i]), "k-th polynomial of the family, on every call");
    };
    same(b.generate(x), x, n);
    if (two) same(c.generate(x), x, n + 1);
    same(b.generate(y), y, n);
    same(b.generate(x), x, n);
    vp_reach("generated");
}
VP_TEST(monomials_again) { again<MonomialBasisFunction>(monomial); }
VP_TEST(chebyshevs_again) { again<ChebyshevBasisFunction>(chebyshev); }
VP_TEST(legendres_again) { again<LegendreBasisFunction>(legendre); }
VP_TEST(laguerres_again) { again<LaguerreBasisFunction>(laguerre); }
VP_TEST(no_functions) {
    int f = vp_int("family", 0, 3), n = vp_int("functions", 0, 2);
    int oc = vp_outcome<std::invalid_argument>([&] {
        if (f == 0) MonomialBasisFunction b(n); else if (f == 1) ChebyshevBasisFunction b(n); else if (f == 2) LegendreBasisFunction b(n); else LaguerreBasisFunction b(n);
    });
    vp_assert(oc == (n == 0 ? 1 : 0), "zero functions are rejected, others accepted");
    vp_reach("constructed");
}
