#ifndef VP_LINSYS_H
#define VP_LINSYS_H
#include "vp.h"
#include <string>
#include <vector>
#include "numerical_analysis/linear_algebra/matrix_solver/base_matrix_solver.h"
using namespace OptionPricer;
inline std::string num(int i) { std::string d; do { d.insert(d.begin(), char('0' + i % 10)); i /= 10; } while (i); return d; }
inline std::string nm2(const char* b, int i, int j) { return b + num(i) + "_" + num(j); }
inline double det(const std::vector<std::vector<double>>& a, int n) {   // determinant of the leading n x n block, by expansion along the last row
    if (n == 0) return 1;
    double s = 0;
    std::vector<int> cols(n);
    for (int j = 0; j < n; ++j) cols[j] = j;
    struct R { static double go(const std::vector<std::vector<double>>& a, int row, const std::vector<int>& c) {
        if (c.empty()) return 1;
        double s = 0;
        for (size_t k = 0; k < c.size(); ++k) {
            std::vector<int> d(c); d.erase(d.begin() + k);
            double t = a[row][c[k]] * go(a, row + 1, d);
            s += (k % 2 ? -t : t);
        }
        return s;
    } };
    return R::go(a, 0, cols);
}
inline Eigen::SparseMatrix<double> sparse(const std::vector<std::vector<double>>& a, int band) {
    int n = a.size();
    std::vector<Eigen::Triplet<double>> t;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (j - i <= band && i - j <= band) t.emplace_back(i, j, a[i][j]);
    Eigen::SparseMatrix<double> A(n, n);
    A.setFromTriplets(t.begin(), t.end());
    return A;
}
#endif
