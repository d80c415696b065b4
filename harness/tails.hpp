#ifndef VERIF_TAILS_HPP
#define VERIF_TAILS_HPP
#include "ref.hpp"
namespace vf {
inline std::size_t gen_cache(Rng &r, std::size_t n)
{
    if (long_case()) n = 1 + r.below(r.chance(.5) ? 1100 : 300);
    switch (r.below(6))
    {
    case 0: return 1 + r.below(3);
    case 1: return n ? n : 1;
    case 2: return n + 1 + r.below(4);
    case 3: return n > 1 ? n - 1 : 1;
    default: return 1 + r.below(n + 2);
    }
}
// a stream with controllable ties, exactly representable in S
template<class S> std::vector<S> tail_stream(Rng &r, std::size_t n, bool distinct)
{
    std::vector<double> d = gen(r, n, (int)r.below(NKINDS), 64);
    std::vector<S> x(n);
    for (std::size_t i = 0; i < n; ++i) x[i] = (S)std::floor(d[i] < -1e6 ? -1e6 : d[i] > 1e6 ? 1e6 : d[i]);
    if (!std::is_integral<S>::value && r.chance(.6)) for (std::size_t i = 0; i < n; ++i) x[i] = (S)(d[i]);
    if (distinct)
    {
        std::set<S> seen;
        for (std::size_t i = 0; i < n; ++i) { S v = x[i]; while (!seen.insert(v).second) v = (S)(v + (S)(1 + r.below(3 * n + 3))); x[i] = v; }
    }
    return x;
}
}
#endif
