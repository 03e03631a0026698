#ifndef VP_FDM_H
#define VP_FDM_H
#include "options.h"
#include <vector>
#include "numerical_analysis/interpolation/base_interpolation.h"
#include "numerical_analysis/linear_algebra/matrix_solver/base_matrix_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
using OptionPricer::FDM::OneFactor::FDMSolver;
using OptionPricer::FDM::OneFactor::EulerExplicitFDM;
using OptionPricer::FDM::OneFactor::EulerImplicitFDM;
using OptionPricer::FDM::OneFactor::CrankNicolsonFDMSolver;
using OptionPricer::PDE::OneFactor::ConvectionDiffusionPDE;
inline std::string num(int i) { std::string d; do { d.insert(d.begin(), char('0' + i % 10)); i /= 10; } while (i); return d; }
inline std::string nm2(const char* b, int i, int j) { return b + num(i) + "_" + num(j); }
// arbitrary coefficient values on the grid nodes (j) and time levels (n)
struct Coef { int J, N; double dx, dt; std::vector<std::vector<double>> a, b, c, f; std::vector<double> u0, left, right; };
struct TablePDE final : ConvectionDiffusionPDE {
    std::shared_ptr<Coef> k;
    explicit TablePDE(std::shared_ptr<Coef> k_) : k(std::move(k_)) {}
    // the node / time level a coefficient is read at (with room for rounding when a counterexample is replayed)
    int node(double x) const {
        for (int j = 0; j < k->J; ++j) if (x == j * k->dx) return j;
        for (int j = 0; j < k->J; ++j) if (std::abs(x - j * k->dx) < 1e-6 * k->dx) return j;
        vp_assert(false, "coefficients are read on grid nodes"); return 0;
    }
    int level(double t) const {
        for (int n = 0; n < k->N; ++n) if (t == n * k->dt) return n;
        for (int n = 0; n < k->N; ++n) if (std::abs(t - n * k->dt) < 1e-6 * k->dt) return n;
        vp_assert(false, "coefficients are read on time levels"); return 0;
    }
    double diffusion(const double& t, const double& x) const override { return k->a[level(t)][node(x)]; }
    double convection(const double& t, const double& x) const override { return k->b[level(t)][node(x)]; }
    double reaction(const double& t, const double& x) const override { return k->c[level(t)][node(x)]; }
    double rightHandSide(const double& t, const double& x) const override { return k->f[level(t)][node(x)]; }
    double boundaryLeft(const double& t, const double& x) const override { vp_assert(node(x) == 0, "left boundary at node 0"); return k->left[level(t)]; }
    double boundaryRight(const double& t, const double& x) const override { vp_assert(node(x) == k->J - 1, "right boundary at the last node"); return k->right[level(t)]; }
    double initialCondition(const double& x) const override { return k->u0[node(x)]; }
};
inline std::shared_ptr<Coef> coef(int J, int N, double xDom, double tDom) {
    auto k = std::make_shared<Coef>();
    k->J = J; k->N = N; k->dx = xDom / (J - 1); k->dt = tDom / (N - 1);
    for (int n = 0; n < N; ++n) {
        std::vector<double> a(J), b(J), c(J), f(J);
        for (int j = 1; j + 1 < J; ++j) {
            a[j] = vp_double(nm2("a", n, j).c_str()); b[j] = vp_double(nm2("b", n, j).c_str()); c[j] = vp_double(nm2("c", n, j).c_str()); f[j] = vp_double(nm2("f", n, j).c_str());
        }
        k->a.push_back(a); k->b.push_back(b); k->c.push_back(c); k->f.push_back(f);
        k->left.push_back(vp_double(nm2("left", n, 0).c_str())); k->right.push_back(vp_double(nm2("right", n, 0).c_str()));
    }
    for (int j = 0; j < J; ++j) k->u0.push_back(vp_double(nm2("u", 0, j).c_str()));
    return k;
}
struct Nearest final : Interpolation {   // records what it is given
    mutable std::vector<double> x, y; mutable double s = 0; mutable int calls = 0; double out = 0;
    double interpolate(const std::vector<double>& X, const std::vector<double>& Y, const double& q) const override { ++calls; x = X; y = Y; s = q; return out; }
};
// a matrix solver that records the systems it is given and answers with arbitrary values
struct Recorder final : MatrixSolver {
    struct Sys { std::vector<std::vector<double>> A; std::vector<double> b, x; };
    mutable std::vector<Sys> sys;
    Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override {
        int n = A.rows();
        vp_assert((int)A.cols() == n && (int)b.size() == n, "a square system");
        Eigen::VectorXd x(n); Sys s;
        for (int i = 0; i < n; ++i) {
            x[i] = vp_double(nm2("sol", (int)sys.size(), i).c_str()); s.x.push_back(x[i]); s.b.push_back(b[i]);
            std::vector<double> row(n); for (int j = 0; j < n; ++j) row[j] = A.coeff(i, j);
            s.A.push_back(row);
        }
        sys.push_back(s);
        return x;
    }
};
template <class S> inline std::unique_ptr<FDMSolver> make_solver(double xDom, int J, double tDom, int N, std::shared_ptr<Coef> k, const std::shared_ptr<EuropeanOption>& o,
                                                                  const std::shared_ptr<Interpolation>& ip, const std::shared_ptr<MatrixSolver>& ms) {
    auto pde = std::make_unique<TablePDE>(k);
    if constexpr (std::is_same_v<S, EulerExplicitFDM>) return std::make_unique<S>(xDom, J, tDom, N, std::move(pde), o, MD(), ip);
    else return std::make_unique<S>(xDom, J, tDom, N, std::move(pde), o, MD(), ip, ms);
}
#endif
