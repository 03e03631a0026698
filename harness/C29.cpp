// C29 CIR schemes and chosen discretisation
//@ mode real
//@ bound every real variance (negative included), dt >= 0, kappa, theta, sigma_v, shock; models with 1..2 steps (3 thorough); one scheme advanced with three parameter sets in turn; Heston parameter validation: every non-NaN double
//@ assume arithmetic is exact (real numbers) except in the validation test
#include "models.h"
#include "model/heston_model.h"
#include "model/bates_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
VP_MODELS_DRAW
static double euler(double V, double dt, double k, double th, double s, double z) { double p = V > 0 ? V : 0; return V + k * (th - p) * dt + s * std::sqrt(p * dt) * z; }
static double milstein(double V, double dt, double k, double th, double s, double z) { return euler(V, dt, k, th, s, z) + s * s * dt * (z * z - 1) / 4; }
VP_TEST(schemes) {
    double V = vp_double("V"), dt = vp_nonneg("dt"), k = vp_double("kappa"), th = vp_double("theta"), s = vp_double("sigma_v"), z = vp_double("z");
    double a = V, b = V;
    CIRExplicitEulerDiscretization e; CIRMilsteinDiscretization m;
    const CIRDiscretization &E = e, &M = m;
    E.update(a, dt, k, th, s, z); M.update(b, dt, k, th, s, z);
    vp_reach("advanced");
    vp_assert_eq(a, euler(V, dt, k, th, s, z), "Euler step"); vp_assert_eq(b, milstein(V, dt, k, th, s, z), "Milstein step");
}
VP_TEST(schemes_in_turn) {   // one object, several steps: each depends on its own arguments only
    CIRExplicitEulerDiscretization e; CIRMilsteinDiscretization m;
    bool mil = vp_bool("milstein"); const CIRDiscretization& D = mil ? static_cast<const CIRDiscretization&>(m) : e;
    int change = vp_int("change", 0, 6);   // 6: everything, else only that argument
    double p[3][6] = {{vp_double("V0"), vp_nonneg("dt0"), vp_double("kappa0"), vp_double("theta0"), vp_double("sigma_v0"), vp_double("z0")},
                      {vp_double("V1"), vp_nonneg("dt1"), vp_double("kappa1"), vp_double("theta1"), vp_double("sigma_v1"), vp_double("z1")}};
    for (int i = 0; i < 6; ++i) { if (change < 6 && i != change) p[1][i] = p[0][i]; p[2][i] = p[0][i]; }
    for (auto& q : p) {
        double V = q[0];
        D.update(V, q[1], q[2], q[3], q[4], q[5]);
        vp_reach("advanced");
        vp_assert_eq(V, (mil ? milstein : euler)(q[0], q[1], q[2], q[3], q[4], q[5]), "step of its own arguments");
    }
}
// the variance a model uses is visible in the volatility of the next log-return: x_1 = (r-c-V1+/2) dt + sqrt(V1+ dt) * shock
struct Mark final : CIRDiscretization { mutable int n = 0; double V; void update(double& v, const double&, const double&, const double&, const double&, const double&) const override { ++n; v = V; } };
static void chosen(bool bates) {
    World w(false);
    int which = vp_int("discretisation", 0, 3);   // 0 none given, 1 Euler, 2 Milstein, 3 user-defined
    double kappa = vp_pos("kappa"), theta = vp_nonneg("theta"), sv = vp_pos("sigma_v"), v0 = vp_pos("v0"), rho = vp_range("rho", -1, 1);
    std::shared_ptr<CIRDiscretization> d; auto mark = std::make_shared<Mark>(); mark->V = vp_double("Vmark");
    if (which == 1) d = std::make_shared<CIRExplicitEulerDiscretization>();
    if (which == 2) d = std::make_shared<CIRMilsteinDiscretization>();
    if (which == 3) d = mark;
    auto gen = std::make_shared<Gen>(2);
    std::unique_ptr<StockModel> model;
    if (bates) model = std::make_unique<BatesModel>("A", w.md, gen, kappa, theta, sv, rho, v0, vp_pos("lambda"), vp_double("muJ"), vp_pos("sigmaJ"), d);
    else model = std::make_unique<HestonModel>("A", w.md, gen, kappa, theta, sv, rho, v0, d);
    scr.p[0] = scr.p[1] = 0;
    double dt = w.T / 2;
    double z = vp_double("zv");
    // which standardised draw is the variance shock of step 1: rebuild V1 for the shock seen by a probing discretisation
    struct Probe final : CIRDiscretization { mutable double z0 = 0; mutable int n = 0; void update(double&, const double&, const double&, const double&, const double&, const double& q) const override { if (n++ == 0) z0 = q; } };
    auto probe = std::make_shared<Probe>();
    std::unique_ptr<StockModel> pm;
    if (bates) pm = std::make_unique<BatesModel>("A", w.md, gen, kappa, theta, sv, rho, v0, vp_pos("lambda"), vp_double("muJ"), vp_pos("sigmaJ"), probe);
    else pm = std::make_unique<HestonModel>("A", w.md, gen, kappa, theta, sv, rho, v0, probe);
    for (int k = 0; k < 4; ++k) scr.z[k] = 0;
    scr.z[0] = z; scr.z[1] = vp_double("zs");
    scr.rewind(); (void)pm->simulatePrices(w.T);
    double shock = probe->z0;
    double V1 = which == 3 ? mark->V : which == 2 ? milstein(v0, dt, kappa, theta, sv, shock) : euler(v0, dt, kappa, theta, sv, shock);
    double Vp = V1 > 0 ? V1 : 0;
    scr.rewind(); auto p = model->simulatePrices(w.T);        // second-step normals 0: x_1 = (r-c-V1+/2-comp) dt
    double m0 = std::log(p[1] / p[0]);
    vp_reach("simulated");
    double V2 = v0; // drift part without V: from the first step, mean = (r-c-v0/2-comp) dt
    scr.z[0] = 0; scr.z[1] = 0; scr.rewind();
    auto q = model->simulatePrices(w.T);
    double c0 = std::log(q[0] / w.S) + V2 / 2 * dt;           // (r-c-comp) dt
    vp_assert_eq(m0, c0 - Vp / 2 * dt, which == 0 ? "default is Euler" : "the given discretisation drives the variance");
    if (which == 3) vp_assert(mark->n == 4, "the given discretisation is called once per step");
}
VP_TEST(heston_choice) { chosen(false); }
VP_TEST(bates_choice) { chosen(true); }
//@ mode fp
VP_TEST(heston_domain) {
    auto md = MarketData::getInstance(); md->addStock("A", 100.0, 0.2);
    double rho = vp_double("rho"), v0 = vp_double("v0"), sv = vp_double("sigma_v");
    vp_assume(rho == rho && v0 == v0 && sv == sv);
    int o = vp_outcome<std::logic_error>([&] { HestonModel m("A", md, std::make_shared<Gen>(1), 1.0, 0.04, sv, rho, v0); vp_reach("accepted"); });
    vp_assert(o == (rho >= -1 && rho <= 1 && v0 >= 0 && sv >= 0 ? 0 : 1), "rejected with logic_error exactly when |rho| > 1, v0 < 0 or sigma_v < 0");
}
