// C22 Thomas algorithm: A x = b for every tridiagonal A with non-vanishing leading minors
//@ mode real
//@ bound matrix size 2..5 (6 thorough), every tridiagonal matrix with non-zero leading principal minors, every right-hand side, exact real arithmetic; also general tridiagonal patterns with structurally absent off-diagonal entries; also fixed dominant matrices of size 6..64 (100 thorough) with one arbitrary diagonal entry and every right-hand side; one object solving two arbitrary systems of size 2..4 in turn and the first again
//@ assume rounding errors are outside the encoding
#include <algorithm>
#include "linsys.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
static void run(int n, bool holes) {
    std::vector<std::vector<double>> a(n, std::vector<double>(n, 0.0));
    std::vector<Eigen::Triplet<double>> t;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (j - i <= 1 && i - j <= 1) {
        if (holes && i != j && vp_bool(nm2("absent", i, j).c_str())) continue;
        a[i][j] = vp_double(nm2("a", i, j).c_str());
        t.emplace_back(i, j, a[i][j]);
    }
    // leading minors by the three-term recurrence
    double m1 = 1, m0 = 0;
    for (int i = 0; i < n; ++i) {
        double m = a[i][i] * m1 - (i ? a[i][i - 1] * a[i - 1][i] * m0 : 0);
        vp_assume(m != 0); m0 = m1; m1 = m;
    }
    Eigen::SparseMatrix<double> A(n, n);
    A.setFromTriplets(t.begin(), t.end());
    Eigen::VectorXd b(n), b0;
    for (int i = 0; i < n; ++i) b[i] = vp_double(nm2("b", i, 0).c_str());
    b0 = b;
    ThomasAlgorithm s;
    Eigen::VectorXd x = s.solve(A, b);
    vp_reach("solved");
    vp_assert((int)x.size() == n, "one unknown per row");
    for (int i = 0; i < n; ++i) {
        double l = 0;
        for (int j = 0; j < n; ++j) l += a[i][j] * x[j];
        vp_assert_eq(l, b0[i], "A x = b");
    }
}
VP_TEST(size2) { run(2, false); }
VP_TEST(size3) { run(3, false); }
VP_TEST(size4) { run(4, false); }
VP_TEST(size5) { run(5, false); }
VP_TEST(holes) { run(vp_int("n", 2, 3), true); }
// large systems: fixed diagonally dominant matrix with one arbitrary diagonal entry (kept dominant), every right-hand side;
// the same solver object solves a system of another size before
static void large(bool lower) {
    static const int sizes[] = {6, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100};
    int n = sizes[vp_int("n", 0, vp_tier() ? 11 : 9)], at = vp_int("at", 0, 2) * (n - 1) / 2;
    std::vector<std::vector<double>> a(n, std::vector<double>(n, 0.0));
    std::vector<Eigen::Triplet<double>> t;
    for (int i = 0; i < n; ++i) for (int j = i ? i - 1 : 0; j < n && j <= i + 1; ++j) {
        a[i][j] = vp_exact(i == j ? 4 + i % 3 : j < i ? (i % 4 == 3 ? 0.0 : -1 - 0.5 * (i % 2)) : 1 + 0.5 * (i % 3));
        if (i == j && i == at) a[i][j] += vp_nonneg("more");
        t.emplace_back(i, j, a[i][j]);
    }
    if (lower) std::reverse(t.begin(), t.end());   // the order of insertion does not matter
    ThomasAlgorithm s;
    { Eigen::SparseMatrix<double> A(3, 3); Eigen::VectorXd b(3); for (int i = 0; i < 3; ++i) { A.insert(i, i) = 2 + i; b[i] = vp_double(nm2("c", i, 0).c_str()); } (void)s.solve(A, b); }
    Eigen::SparseMatrix<double> A(n, n);
    A.setFromTriplets(t.begin(), t.end());
    Eigen::VectorXd b(n), b0;
    for (int i = 0; i < n; ++i) b[i] = vp_double(nm2("b", i, 0).c_str());
    b0 = b;
    Eigen::VectorXd x = s.solve(A, b);
    vp_reach("solved");
    vp_assert((int)x.size() == n, "one unknown per row");
    for (int i = 0; i < n; ++i) {
        double l = 0;
        for (int j = i ? i - 1 : 0; j < n && j <= i + 1; ++j) l += a[i][j] * x[j];
        vp_assert_eq(l, b0[i], "A x = b in large systems");
    }
}
VP_TEST(large_systems) { large(vp_bool("reversed")); }
// one object solves two arbitrary systems in turn, then the first again
static void again(int n, int m) {
    ThomasAlgorithm s;
    struct One { std::vector<std::vector<double>> a; Eigen::SparseMatrix<double> A; Eigen::VectorXd b; };
    auto system = [](const char* na, const char* nb, int k) {
        One o; o.a.assign(k, std::vector<double>(k, 0.0)); std::vector<Eigen::Triplet<double>> t;
        for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) if (j - i <= 1 && i - j <= 1) { o.a[i][j] = vp_double(nm2(na, i, j).c_str()); t.emplace_back(i, j, o.a[i][j]); }
        double m1 = 1, m0 = 0;
        for (int i = 0; i < k; ++i) { double d = o.a[i][i] * m1 - (i ? o.a[i][i - 1] * o.a[i - 1][i] * m0 : 0); vp_assume(d != 0); m0 = m1; m1 = d; }
        o.A.resize(k, k); o.A.setFromTriplets(t.begin(), t.end()); o.b.resize(k);
        for (int i = 0; i < k; ++i) o.b[i] = vp_double(nm2(nb, i, 0).c_str());
        return o;
    };
    One p = system("a", "b", n), q = system("c", "d", m);
    for (const One* o : {&p, &q, &p}) {
        Eigen::VectorXd x = s.solve(o->A, o->b);
        int k = o->a.size();
        vp_assert((int)x.size() == k, "one unknown per row, on every call");
        for (int i = 0; i < k; ++i) { double l = 0; for (int j = 0; j < k; ++j) l += o->a[i][j] * x[j]; vp_assert_eq(l, o->b[i], "A x = b on every call"); }
    }
    vp_reach("solved");
}
VP_TEST(again_same_size) { again(3, vp_int("m", 2, vp_tier() ? 4 : 3)); }
VP_TEST(again_other_size) { again(2, vp_int("m", 2, 4)); }
VP_TEST(too_small) {
    int n = vp_int("n", 0, 1);
    Eigen::SparseMatrix<double> A(n, n); Eigen::VectorXd b(n);
    if (n) { A.insert(0, 0) = vp_pos("a"); b[0] = vp_double("b"); }
    ThomasAlgorithm s;
    vp_assert(vp_outcome<std::invalid_argument>([&] { s.solve(A, b); }) == 1, "a matrix smaller than 2x2 is rejected");
    vp_reach("rejected");
}
//@ tier thorough
VP_TEST(size6) { run(6, false); }
