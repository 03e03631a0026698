// C21 quadratic interpolation: node values, clamping, linear end intervals, parabola inside, terminating interval search
//@ mode real
//@ bound 1..8 nodes (12 thorough; 4, 6 thorough, in the bit-precise tests); every strictly increasing grid, every node value, every query point (exact real arithmetic); clamping, termination and memory safety also for every finite double grid, NaN and infinite queries (bit-precise); also grids of up to 100 nodes at fixed uneven positions with arbitrary values; one object reused for another grid
//@ assume the grid is strictly increasing and both vectors have the same length
#include "interp.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
using I = QuadraticInterpolation;
VP_TEST(nodes) { Grid g(1); I f; at_nodes(f, g); }
VP_TEST(clamp) { Grid g(1); I f; outside(f, g); }
VP_TEST(line_first_interval) { Grid g(2); I f; line_between(f, g, 0); }
VP_TEST(line_last_interval) { Grid g(2); I f; line_between(f, g, g.n - 2); }
VP_TEST(parabola_inside) {
    Grid g(4); I f;
    int k = vp_int("interval", 1, g.n - 3);
    double a = vp_range("a", 0, 1), t = g.x[k] + a * (g.x[k + 1] - g.x[k]);
    double q = f.interpolate(g.x, g.y, t);
    vp_reach("interior interval");
    // Newton form of the parabola through k-1, k, k+1
    double d1 = (g.y[k] - g.y[k - 1]) / (g.x[k] - g.x[k - 1]), d2 = (g.y[k + 1] - g.y[k]) / (g.x[k + 1] - g.x[k]);
    double want = g.y[k - 1] + d1 * (t - g.x[k - 1]) + (d2 - d1) / (g.x[k + 1] - g.x[k - 1]) * (t - g.x[k - 1]) * (t - g.x[k]);
    vp_assert_eq(q, want, "parabola through the end points and the node to the left");
}
VP_TEST(reproduces_quadratics) {
    Grid g(4); I f;
    double A = vp_double("A"), B = vp_double("B"), C = vp_double("C");
    for (int i = 0; i < g.n; ++i) g.y[i] = A + B * g.x[i] + C * g.x[i] * g.x[i];
    int k = vp_int("interval", 1, g.n - 3);
    double a = vp_range("a", 0, 1), t = g.x[k] + a * (g.x[k + 1] - g.x[k]);
    vp_reach("quadratic data");
    vp_assert_eq(f.interpolate(g.x, g.y, t), A + B * t + C * t * t, "quadratic data reproduced");
}
VP_TEST(any_real_query) {
    Grid g(1); I f;
    double t = vp_double("t");
    vp_assert(vp_outcome<std::exception>([&] { f.interpolate(g.x, g.y, t); }) == 0, "no exception for a real query");
    vp_reach("any query");
}
VP_TEST(wide) {
    WideGrid g; I f; double t = g.at(vp_range("a", 0, 1)); int k = g.k;
    double q = f.interpolate(g.x, g.y, t), s = (g.y[k + 1] - g.y[k]) / (g.x[k + 1] - g.x[k]), want = g.y[k] + s * (t - g.x[k]);
    if (k > 0 && k < g.n - 2) want += (s - (g.y[k] - g.y[k - 1]) / (g.x[k] - g.x[k - 1])) / (g.x[k + 1] - g.x[k - 1]) * (t - g.x[k]) * (t - g.x[k + 1]);
    vp_assert_eq(q, want, "line in the end intervals, parabola inside, on long grids");
    vp_reach("interpolated");
    vp_assert_eq(f.interpolate(g.x, g.y, g.x[0] - 1), g.y[0], "first value left of the grid");
    vp_assert_eq(f.interpolate(g.x, g.y, g.x[g.n - 1] + 1), g.y[g.n - 1], "last value right of the grid");
}
VP_TEST(reuse) { I f; reused(f); }
//@ mode fp
VP_TEST(fp_clamp) { FpGrid g; I f; fp_outside(f, g); }
VP_TEST(fp_inside) { FpGrid g; I f; fp_inside(f, g); }
VP_TEST(fp_nan) { FpGrid g; I f; fp_nan(f, g); }
