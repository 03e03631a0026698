// C20 linear interpolation: exact at nodes, straight between, clamped outside
//@ mode real
//@ bound 1..8 nodes (12 thorough; 4, 6 thorough, in the bit-precise tests); every strictly increasing grid, every node value, every query point (exact real arithmetic); clamping, node hits and memory safety also for every finite double grid, NaN and infinite queries (bit-precise); also grids of up to 65..100 nodes at fixed uneven positions with arbitrary values; one object reused for another grid
//@ assume the grid is strictly increasing and both vectors have the same length
#include "interp.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
using I = LinearInterpolation;
VP_TEST(between) { Grid g(2); I f; line_between(f, g, vp_int("interval", 0, g.n - 2)); }
VP_TEST(nodes) { Grid g(1); I f; at_nodes(f, g); }
VP_TEST(clamp) { Grid g(1); I f; outside(f, g); }
VP_TEST(generic) { Grid g(2); I f; any_query(f, g); }
VP_TEST(wide) { I f; wide_line(f); }
VP_TEST(reuse) { I f; reused(f); }
//@ mode fp
VP_TEST(fp_clamp) { FpGrid g; I f; fp_outside(f, g); }
VP_TEST(fp_inside) { FpGrid g; I f; fp_inside(f, g); }
VP_TEST(fp_nan) { FpGrid g; I f; fp_nan(f, g); }
