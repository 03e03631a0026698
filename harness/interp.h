#ifndef VP_INTERP_H
#define VP_INTERP_H
#include "vp.h"
#include <limits>
#include <string>
#include <vector>
#include "numerical_analysis/interpolation/base_interpolation.h"
using namespace OptionPricer;
inline std::string nm(const char* b, int i) { std::string d; do { d.insert(d.begin(), char('A' + i % 26)); i /= 26; } while (i); return b + d; }
struct Grid {
    int n; std::vector<double> x, y;
    explicit Grid(int min) {
        n = vp_int("nodes", min, vp_tier() ? 12 : 8);
        x.push_back(vp_double("x0"));
        for (int i = 1; i < n; ++i) x.push_back(x.back() + vp_pos(nm("h", i).c_str()));
        for (int i = 0; i < n; ++i) y.push_back(vp_double(nm("y", i).c_str()));
    }
    Grid(int nodes, int off) : n(nodes) {
        if (n) x.push_back(vp_double(nm("x", off).c_str()));
        for (int i = 1; i < n; ++i) x.push_back(x.back() + vp_pos(nm("h", off + i).c_str()));
        for (int i = 0; i < n; ++i) y.push_back(vp_double(nm("y", off + i).c_str()));
    }
};
template <class I> void line_between(const I& f, const Grid& g, int k) {
    double a = vp_range("a", 0, 1);
    double q = f.interpolate(g.x, g.y, g.x[k] + a * (g.x[k + 1] - g.x[k]));
    vp_reach("interpolated");
    vp_assert_eq(q, g.y[k] + a * (g.y[k + 1] - g.y[k]), "straight line between neighbouring nodes");
    vp_assert_le(q, g.y[k] > g.y[k + 1] ? g.y[k] : g.y[k + 1], "not above both nodes");
    vp_assert_le(g.y[k] < g.y[k + 1] ? g.y[k] : g.y[k + 1], q, "not below both nodes");
}
template <class I> void at_nodes(const I& f, const Grid& g) {
    int k = vp_int("k", 0, g.n - 1);
    vp_reach("node");
    vp_assert_eq(f.interpolate(g.x, g.y, g.x[k]), g.y[k], "node value at a node");
}
template <class I> void outside(const I& f, const Grid& g) {
    double d = vp_nonneg("d");
    vp_reach("outside");
    vp_assert_eq(f.interpolate(g.x, g.y, g.x[0] - d), g.y[0], "first value left of the grid");
    vp_assert_eq(f.interpolate(g.x, g.y, g.x[g.n - 1] + d), g.y[g.n - 1], "last value right of the grid");
}
// a query that is not written in terms of the grid: no exception, and the value lies on the line of its interval
template <class I> void any_query(const I& f, const Grid& g) {
    double t = vp_double("t"), q = 0;
    int oc = vp_outcome<std::exception>([&] { q = f.interpolate(g.x, g.y, t); });
    vp_assert(oc == 0, "no exception for a real query");
    vp_reach("any query");
    for (int k = 0; k + 1 < g.n; ++k)
        if (t >= g.x[k] && t <= g.x[k + 1])
            vp_assert_eq((q - g.y[k]) * (g.x[k + 1] - g.x[k]), (t - g.x[k]) * (g.y[k + 1] - g.y[k]), "value on the line of its interval");
    if (t <= g.x[0]) vp_assert_eq(q, g.y[0], "first value left of the grid");
    if (t >= g.x[g.n - 1]) vp_assert_eq(q, g.y[g.n - 1], "last value right of the grid");
}
// long grids with fixed (uneven) positions and arbitrary values
struct WideGrid : Grid {
    int k;   // an interval: the first, last, middle ones and those around powers of two
    WideGrid() : Grid(0, 0) {
        static const int s[] = {9, 10, 11, 16, 17, 32, 33, 63, 64, 65, 100, 129, 257};
        n = s[vp_int("nodes", 0, vp_tier() ? 12 : 9)];
        for (int i = 0; i < n; ++i) { x.push_back(i * (1 + i / 64.0) - 3); y.push_back(vp_double(nm("y", i).c_str())); }
        const int ks[] = {0, 1, 2, 7, 8, n / 2 - 1, n / 2, n - 4, n - 3, n - 2};
        k = ks[vp_int("interval", 0, 9)]; vp_assume(k <= n - 2);
    }
    double at(double a) const { return x[k] + a * (x[k + 1] - x[k]); }
};
template <class I> void wide_line(const I& f) {
    WideGrid g; line_between(f, g, g.k);
    vp_assert_eq(f.interpolate(g.x, g.y, g.x[g.k]), g.y[g.k], "node value at a node");
    vp_assert_eq(f.interpolate(g.x, g.y, g.x[0] - 1), g.y[0], "first value left of the grid");
    vp_assert_eq(f.interpolate(g.x, g.y, g.x[g.n - 1] + 1), g.y[g.n - 1], "last value right of the grid");
}
// one object asked about different grids, values and queries in turn: the answer depends on the arguments only
template <class I> void reused(const I& f) {
    Grid g(vp_int("n", 2, 4), 0), h(vp_int("m", 2, 4), 100);
    int before = vp_int("before", 0, 2);   // what was asked before: nothing, another grid, the same grid with other values
    double u = vp_double("u"), a = vp_range("a", 0, 1); int k = vp_int("interval", 0, 3); vp_assume(k < g.n - 1);
    double t = g.x[k] + a * (g.x[k + 1] - g.x[k]);
    I fresh; double want = fresh.interpolate(g.x, g.y, t);
    if (before == 0) { f.interpolate(h.x, h.y, u); f.interpolate(h.x, h.y, t); }
    if (before == 1) { auto y = g.y; for (auto& v : y) v = 1 - v; f.interpolate(g.x, y, t); f.interpolate(g.x, y, u); }
    if (before == 2) { auto x = g.x; for (auto& v : x) v = 2 * v + 1; f.interpolate(x, g.y, t); f.interpolate(x, g.y, u); }
    vp_assert_eq(f.interpolate(g.x, g.y, t), want, "the answer does not depend on what was asked before");
    vp_reach("reused");
}
struct FpGrid {
    int n; std::vector<double> x, y;
    FpGrid() {
        n = vp_int("nodes", 1, vp_tier() ? 6 : 4);
        for (int i = 0; i < n; ++i) {
            x.push_back(vp_double(nm("x", i).c_str())); y.push_back(vp_double(nm("y", i).c_str()));
            vp_assume(x[i] - x[i] == 0 && y[i] - y[i] == 0);
            if (i) vp_assume(x[i - 1] < x[i]);
        }
    }
};
template <class I> void fp_outside(const I& f, const FpGrid& g) {
    double t = vp_double("t");
    vp_assume(t <= g.x[0] || t >= g.x[g.n - 1]);
    vp_reach("outside");
    vp_assert_eq(f.interpolate(g.x, g.y, t), t <= g.x[0] ? g.y[0] : g.y[g.n - 1], "clamped to the end value");
}
template <class I> void fp_inside(const I& f, const FpGrid& g) {
    double t = vp_double("t");
    vp_assume(t > g.x[0] && t < g.x[g.n - 1]);
    vp_assert(vp_outcome<std::exception>([&] { f.interpolate(g.x, g.y, t); }) == 0, "a value for every double inside the grid");
    vp_reach("inside");
}
template <class I> void fp_nan(const I& f, const FpGrid& g) {
    double t = vp_double("t"), q = 0;
    vp_assume(t != t);
    int oc = vp_outcome<std::exception>([&] { q = f.interpolate(g.x, g.y, t); });
    vp_assert(oc == 1 || q != q, "no number for a NaN query");
    vp_reach("nan");
}
#endif
