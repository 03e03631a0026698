// C23 LU solvers: A x = b for every regular A (with row exchanges), singular matrices reported by the sparse solver
//@ mode real
//@ bound every regular real matrix of size 1..2, and of size 3 three concrete matrices with one arbitrary entry each (row exchanges needed); every right-hand side for sizes 1..2 and, thorough, 3; one arbitrary entry of the right-hand side for size 3 quick; every singular matrix of size 1..2; one object solving a fixed system of size 2, one with two arbitrary entries and the first again; exact real arithmetic; also fixed dense, banded and cyclic matrices up to size 16 with one arbitrary entry of the right-hand side at a time
//@ assume rounding errors are outside the encoding
#include "linsys.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
struct Sys {
    std::vector<std::vector<double>> a; Eigen::SparseMatrix<double> A; Eigen::VectorXd b; int n;
    Sys(int n_, int band) : a(n_, std::vector<double>(n_, 0.0)), b(n_), n(n_) {
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (j - i <= band && i - j <= band) a[i][j] = vp_double(nm2("a", i, j).c_str());
        for (int i = 0; i < n; ++i) b[i] = vp_double(nm2("b", i, 0).c_str());
        A = sparse(a, band);
    }
    Sys(const std::vector<std::vector<double>>& m, double fixed) : a(m), b(m.size()), n(m.size()) {
        for (int i = 0; i < n; ++i) b[i] = vp_exact(fixed + i);
        A = sparse(a, 9);
    }
    explicit Sys(const std::vector<std::vector<double>>& m) : a(m), b(m.size()), n(m.size()) {
        for (int i = 0; i < n; ++i) b[i] = vp_double(nm2("b", i, 0).c_str());
        A = sparse(a, 9);
    }
    void check(const Eigen::VectorXd& x) const {
        vp_reach("solved");
        vp_assert((int)x.size() == n, "one unknown per row");
        for (int i = 0; i < n; ++i) {
            double l = 0;
            for (int j = 0; j < n; ++j) l += a[i][j] * x[j];
            vp_assert_eq(l, b[i], "A x = b");
        }
    }
};
template <class S> static void run(int n, int band, int part) {
    Sys s(n, band);
    if (part) vp_assume((part <= 2) == (s.a[0][0] >= 0) && (part % 2 == 1) == (s.a[1][0] >= 0));
    vp_assume(det(s.a, n) != 0);
    S solver;
    Eigen::VectorXd x;
    vp_assert(vp_outcome<std::exception>([&] { x = solver.solve(s.A, s.b); }) == 0, "a regular system is solved without an exception");
    s.check(x);
}
// one object solves a fixed system, then one that differs in two arbitrary entries and one arbitrary entry of the right-hand side, then the first again
template <class S> static void again() {
    static const double M[2][2][2] = {{{4, 1}, {2, 3}}, {{0, 2}, {1, 1}}};
    static const int at[3][2][2] = {{{0, 1}, {1, 0}}, {{0, 0}, {1, 1}}, {{0, 0}, {0, 1}}};
    int m = vp_int("matrix", 0, 1), e = vp_int("entries", 0, 2), f = vp_int("rhs", 0, 1);
    std::vector<std::vector<double>> a(2, std::vector<double>(2)), c;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) a[i][j] = vp_exact(M[m][i][j]);
    c = a;
    for (auto& q : at[e]) c[q[0]][q[1]] = vp_double(nm2("a", q[0], q[1]).c_str());
    vp_assume(det(c, 2) != 0);
    Sys first(a, 2.0), second(c, 2.0);
    second.b[f] = vp_double("b");
    S solver;
    for (Sys* s : {&first, &second, &first}) {
        Eigen::VectorXd x;
        vp_assert(vp_outcome<std::exception>([&] { x = solver.solve(s->A, s->b); }) == 0, "a regular system is solved without an exception, on every call");
        s->check(x);
    }
}
static void singular(int n, int band) {
    Sys s(n, band);
    vp_assume(det(s.a, n) == 0);
    LUDecompositionSolver solver;
    vp_assert(vp_outcome<std::runtime_error>([&] { solver.solve(s.A, s.b); }) == 1, "a singular matrix is reported");
    vp_reach("singular");
}
// 3x3: a concrete regular matrix whose factorisation must exchange rows, with a symbolic entry
template <class S> static void run3(int p, bool all) {
    static const double M[3][3][3] = {{{0, 2, 1}, {1, 1, 0}, {3, 0, 2}}, {{1, 2, 0}, {2, 4, 1}, {0, 3, 5}}, {{4, 1, 0}, {1, 5, 2}, {0, 2, 6}}};
    static const int at[3][1][2] = {{{0, 0}}, {{1, 1}}, {{2, 1}}};
    std::vector<std::vector<double>> a(3, std::vector<double>(3));
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = vp_exact(M[p][i][j]);
    for (auto& e : at[p]) a[e[0]][e[1]] = vp_double(nm2("a", e[0], e[1]).c_str());
    vp_assume(det(a, 3) != 0);
    Sys s(a);
    if (!all) for (int i = 0; i < 3; ++i) if (i != p) s.b[i] = vp_exact(1.0 + 2 * i);
    S solver;
    Eigen::VectorXd x;
    vp_assert(vp_outcome<std::exception>([&] { x = solver.solve(s.A, s.b); }) == 0, "a regular system is solved without an exception");
    s.check(x);
}
VP_TEST(sparse2_a) { run<LUDecompositionSolver>(2, 9, 1); }
VP_TEST(sparse2_b) { run<LUDecompositionSolver>(2, 9, 2); }
VP_TEST(sparse2_c) { run<LUDecompositionSolver>(2, 9, 3); }
VP_TEST(sparse2_d) { run<LUDecompositionSolver>(2, 9, 4); }
VP_TEST(sparse1) { run<LUDecompositionSolver>(1, 9, 0); }
VP_TEST(singular1) { singular(1, 9); }
VP_TEST(singular2) { singular(2, 9); }
VP_TEST(pivoting1) { run<PartialPivotingLUSolver>(1, 9, 0); }
VP_TEST(pivoting2) { run<PartialPivotingLUSolver>(2, 9, 0); }
VP_TEST(sparse2_again) { again<LUDecompositionSolver>(); }
VP_TEST(pivoting2_again) { again<PartialPivotingLUSolver>(); }
VP_TEST(pivoting3_a) { run3<PartialPivotingLUSolver>(0, false); }
VP_TEST(pivoting3_b) { run3<PartialPivotingLUSolver>(1, false); }
VP_TEST(pivoting3_c) { run3<PartialPivotingLUSolver>(2, false); }
VP_TEST(sparse3_a) { run3<LUDecompositionSolver>(0, false); }
VP_TEST(sparse3_b) { run3<LUDecompositionSolver>(1, false); }
VP_TEST(sparse3_c) { run3<LUDecompositionSolver>(2, false); }
// larger concrete regular matrices (dense, banded, cyclic: rows must be exchanged), one arbitrary entry of the right-hand side at a time (the
// others fixed); the same solver object solves another system before
static double entry(int kind, int n, int i, int j) {
    if (kind == 0) return i == j ? n + 1 : (i * 7 + j * 3) % 5 - 2;                       // dense, dominant
    if (kind == 1) return i == j ? 4 + i % 2 : i - j == 1 ? -1.5 : j - i == 1 ? 1 : 0;   // tridiagonal
    return j == (i + 1) % n ? 2 + i % 3 : j == (i + 2) % n && n > 2 ? 0.5 : 0;           // cyclic, zero diagonal
}
template <class S> static void large(int kind, bool wide) {
    static const int sizes[] = {4, 5, 7, 8, 9, 12, 16, 17};
    int n = sizes[vp_int("n", 0, wide ? (vp_tier() ? 7 : 6) : (vp_tier() ? 7 : 4))];
    std::vector<std::vector<double>> a(n, std::vector<double>(n)), c(2, std::vector<double>(2));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = vp_exact(entry(kind, n, i, j));
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) c[i][j] = vp_exact(i == j ? 2.0 : 1.0);
    S solver;
    { Sys first(c, 2.0); (void)solver.solve(first.A, first.b); }
    Eigen::SparseMatrix<double> A(n, n); std::vector<Eigen::Triplet<double>> t;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (entry(kind, n, i, j) != 0) t.emplace_back(i, j, a[i][j]);
    A.setFromTriplets(t.begin(), t.end());
    Eigen::VectorXd b(n), x; int at = vp_int("at", 0, n - 1);
    for (int i = 0; i < n; ++i) b[i] = i == at ? vp_double("b") : vp_exact(i % 4 == 3 ? 0.0 : 1.5 * i - 4);
    Eigen::VectorXd b0 = b;
    vp_assert(vp_outcome<std::exception>([&] { x = solver.solve(A, b); }) == 0, "a regular system is solved without an exception");
    vp_reach("solved");
    vp_assert((int)x.size() == n, "one unknown per row");
    for (int i = 0; i < n; ++i) {
        double l = 0;
        for (int j = 0; j < n; ++j) l += a[i][j] * x[j];
        vp_assert_eq(l, b0[i], "A x = b in larger systems");
    }
}
VP_TEST(sparse_dense) { large<LUDecompositionSolver>(0, false); }
VP_TEST(sparse_band) { large<LUDecompositionSolver>(1, true); }
VP_TEST(sparse_cyclic) { large<LUDecompositionSolver>(2, true); }
VP_TEST(pivoting_dense) { large<PartialPivotingLUSolver>(0, false); }
VP_TEST(pivoting_band) { large<PartialPivotingLUSolver>(1, false); }
VP_TEST(pivoting_cyclic) { large<PartialPivotingLUSolver>(2, false); }
//@ tier thorough
//@ budget 600
VP_TEST(pivoting3_all_a) { run3<PartialPivotingLUSolver>(0, true); }
VP_TEST(pivoting3_all_b) { run3<PartialPivotingLUSolver>(1, true); }
VP_TEST(pivoting3_all_c) { run3<PartialPivotingLUSolver>(2, true); }
VP_TEST(sparse3_all_a) { run3<LUDecompositionSolver>(0, true); }
VP_TEST(sparse3_all_b) { run3<LUDecompositionSolver>(1, true); }
VP_TEST(sparse3_all_c) { run3<LUDecompositionSolver>(2, true); }
