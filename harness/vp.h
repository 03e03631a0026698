// Harness API.  Symbolic run: the vp_* functions are interpreted by /verif/engine.  Native replay: /verif/engine/native_rt.cpp.
#ifndef VP_H
#define VP_H
#include <cmath>
#include <exception>
#include <stdexcept>
extern "C" {
double vp_double(const char* name);                        // any real (real mode); any double incl. NaN/inf (fp mode)
double vp_range(const char* name, double lo, double hi);   // lo <= x <= hi
double vp_pos(const char* name);                           // x > 0 (finite)
double vp_nonneg(const char* name);                        // x >= 0 (finite)
int vp_int(const char* name, int lo, int hi);              // every value lo..hi, one path each
unsigned vp_u32(const char* name);                         // symbolic 32-bit word
bool vp_bool(const char* name);                            // both values, one path each
void vp_assume(bool c);
void vp_assert(bool c, const char* id);
void vp_assert_eq(double a, double b, const char* id);     // a == b for all values (reals) / same double or both NaN (fp)
void vp_assert_le(double a, double b, const char* id);
void vp_reach(const char* id);                             // vacuity witness: some path gets here
int vp_tier(void);                                         // 0 quick, 1 thorough
double vp_exact(double x);                                 // identity (keeps the optimiser from folding)
unsigned vp_entropy(int i);                                // i-th word std::random_device delivered in this run
int vp_entropy_count(void);
// sampling of the standard library's distributions (see vp_random.h); kind: 0 normal(mean,sd) 1 exponential(rate)
// 2 gamma(shape,scale) 3 uniform(a,b) 4 poisson(mean)
double vp_draw(int kind, double a, double b);
void* vp_symbolic_engine(void);
}
#define VP_TEST(name) extern "C" void vp_test_##name()
template <class Ex, class F> int vp_outcome(F&& f) {  // 0 returned, 1 threw Ex (or derived), 2 threw something else
    try { f(); } catch (const Ex&) { return 1; } catch (...) { return 2; }
    return 0;
}
#endif
