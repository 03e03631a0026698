// Stand-in for Boost's sobol engine in the symbolic build: the published interface with arbitrary coordinates.  The k-th
// coordinate of the sobol sequence of a dimension is vp_qrng(family, dim, k), an arbitrary but fixed value in [0, max()].
#ifndef VP_STUB_sobol
#define VP_STUB_sobol
#include <cstddef>
#include <cstdint>
extern "C" double vp_qrng(int family, unsigned dim, unsigned long k);
namespace boost { namespace random {
class sobol {
    std::size_t dim_; unsigned long k_ = 0;
public:
    typedef double result_type;
    explicit sobol(std::size_t dim) : dim_(dim) {}
    void seed() { k_ = 0; }
    void seed(unsigned long s) { k_ = s * dim_; }
    std::size_t dimension() const { return dim_; }
    double operator()() { return vp_qrng(0, (unsigned)dim_, k_++); }
    void discard(unsigned long n) { k_ += n; }
    template <class It> void generate(It a, It b) { for (; a != b; ++a) *a = (*this)(); }
    static constexpr double min() { return 0.0; }
    static constexpr double max() { return 18446744073709551615.0; }
};
} using random::sobol; }
#endif
