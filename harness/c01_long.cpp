// C01: streams longer than 2^32 samples (optimised build, integer statistics: exact)
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include "common.hpp"
using namespace vf; using namespace boost::accumulators;
SCENARIO(beyond_32_bits, 1)
{
    unsigned long long n = (1ull << 32) + 1 + r.below(1000), i = 0; long long s = 0, c = (long long)r.range(1, 3), o = (long long)r.range(-2, 2);
    std::vector<unsigned long long> marks = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, n};
    accumulator_set<long long, stats<tag::count, tag::sum, tag::max, tag::mean> > a; std::string w = "samples (i mod 4) * " + std::to_string(c) + " + " + std::to_string(o);
    for (unsigned long long m : marks)
    {
        for (; i < m; ++i) { long long v = (long long)(i & 3) * c + o; a(v); s += v; }
        check_eq("count:beyond 2^31", (unsigned long long)count(a), m, w); check_eq("sum:beyond 2^31", (long long)sum(a), s, w); check_eq("max:beyond 2^31", (long long)(max)(a), 3 * c + o, w);
        check_near("mean:beyond 2^31", (ld)mean(a), (ld)s / (ld)m, 1e-14L, w);
    }
    sig((std::uint64_t)n); sig((std::uint64_t)c); nontrivial(); count_event("samples pushed", n); show(w + " n=" + std::to_string(n));
}
// the incrementally maintained mean counts past 2^31, too
SCENARIO(immediate_beyond_31_bits, 1)
{
    unsigned long long n = (1ull << 31) + 2 + r.below(50), i = 0; double c = (double)r.range(1, 3), o = (double)r.range(-2, 2); ld s = 0;
    std::vector<unsigned long long> marks = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, n};
    accumulator_set<double, stats<tag::mean(immediate)> > a; std::string w = "samples (i mod 4) * " + str(c) + " + " + str(o); double t[4] = {o, c + o, 2 * c + o, 3 * c + o};
    for (unsigned long long m : marks)
    {
        for (; i < m; ++i) a(t[i & 3]);
        s = 0; for (int k = 0; k < 4; ++k) s += (ld)t[k] * (ld)((m + 3 - k) / 4);
        check_near("mean(immediate):beyond 2^31", (ld)mean(a), s / (ld)m, 5e-6L, w);
    }
    sig((std::uint64_t)n); sig(c); sig(o); nontrivial(); count_event("samples pushed", n); show(w + " n=" + std::to_string(n));
}
