// Force-included into every translation unit of the symbolic build: the samplers of the standard library's distributions
// (their algorithms are libstdc++'s, not this repository's) become calls of vp_draw with the law's parameters.
#ifndef VP_RANDOM_H
#define VP_RANDOM_H
#include <random>
extern "C" double vp_draw(int kind, double a, double b);
namespace std {
template <> template <> inline double normal_distribution<double>::operator()<mt19937>(mt19937&, const param_type& p) { return vp_draw(0, p.mean(), p.stddev()); }
template <> template <> inline double exponential_distribution<double>::operator()<mt19937>(mt19937&, const param_type& p) { return vp_draw(1, p.lambda(), 0.0); }
template <> template <> inline double gamma_distribution<double>::operator()<mt19937>(mt19937&, const param_type& p) { return vp_draw(2, p.alpha(), p.beta()); }
template <> template <> inline double uniform_real_distribution<double>::operator()<mt19937>(mt19937&, const param_type& p) { return vp_draw(3, p.a(), p.b()); }
template <> template <> inline int poisson_distribution<int>::operator()<mt19937>(mt19937&, const param_type& p) { return (int)vp_draw(4, p.mean(), 0.0); }
template <> template <> inline unsigned poisson_distribution<unsigned>::operator()<mt19937>(mt19937&, const param_type& p) { return (unsigned)vp_draw(4, p.mean(), 0.0); }
template <> template <> inline long poisson_distribution<long>::operator()<mt19937>(mt19937&, const param_type& p) { return (long)vp_draw(4, p.mean(), 0.0); }
template <> template <> inline bool bernoulli_distribution::operator()<mt19937>(mt19937&, const param_type& p) { return vp_draw(3, 0.0, 1.0) < p.p(); }
// the twist of the Mersenne Twister without a data-dependent branch (same function as libstdc++'s)
template <> inline void mt19937::_M_gen_rand() {
    const unsigned long up = 0x80000000UL, lo = 0x7fffffffUL;
    for (size_t k = 0; k < 624; ++k) {
        unsigned long y = (_M_x[k] & up) | (_M_x[(k + 1) % 624] & lo);
        _M_x[k] = _M_x[(k + 397) % 624] ^ (y >> 1) ^ ((0UL - (y & 1UL)) & 0x9908b0dfUL);
    }
    _M_p = 0;
}
// parameter precomputation of the stubbed samplers
template <> inline void poisson_distribution<int>::param_type::_M_initialize() {}
template <> inline void poisson_distribution<unsigned>::param_type::_M_initialize() {}
template <> inline void poisson_distribution<long>::param_type::_M_initialize() {}
template <> inline void gamma_distribution<double>::param_type::_M_initialize() {}
}
#endif
