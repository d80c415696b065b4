// C20: extraction is pure. A set that is looked at in every possible way against twins that never were.
#include "anyset.hpp"
using namespace vf; using namespace any;
static Entry const &entry() { sort_entries(); auto const &e = entries(); return e[(std::size_t)(ctx().kase % (long)e.size())]; }
SCENARIO(pure, 2400)
{
    Entry const &e = entry(); std::size_t n = 1 + gen_len(r, 300); Stream t = make_stream(r, n); Cfg cfg(r, n);
    if (r.chance(.3)) { std::size_t few = 1 + r.below(3); for (double &x : t.x) x = (double)r.below(few + 1); }        // ties
    std::string base = " " + e.name + " {" + cfg.text() + "} " + kind_name(t.kind) + " x=" + str_seq(t.x, 10) + " w=" + str_seq(t.w, 6);
    std::unique_ptr<AnySet> a(e.make(cfg)), never(e.make(cfg)); bool early = r.chance(.5); double rate = r.chance(.5) ? 1 : r.uni(); std::size_t stop = r.chance(.3) ? r.below(n) : n, looks = 0;
    std::size_t probes[3] = {n, 1 + r.below(n), 1 + r.below(n)};        // points at which a twin that was never looked at before is compared
    auto probs = [&]() { return r.chance(.1) ? (r.chance(.5) ? .5 : .99) : r.chance(.05) ? (r.chance(.5) ? 0. : 1.) : r.chance(.3) ? r.uni() : .5 + .4999 * r.uni(); };
    for (std::size_t i = 0; i < n;)
    {
        push(*a, t, i); push(*never, t, i); ++i;
        if (i <= stop && r.chance(rate))
        {
            int k = (int)r.below(4); ++looks; a->cfg.early = early;        // also before the statistic has enough samples
            if (k == 0) { Snap s; a->snap((int)r.below((std::uint64_t)a->features()), s, probs()); }                       // one of them
            else if (k == 1) for (int f = a->features(); f-- > 0;) { Snap s; a->snap(f, s, probs()); }                       // all, backwards
            else
            {
                double p = probs(); Snap x = a->all(p); if (k == 3) { a->all(probs()); a->all(probs()); } Snap y = a->all(p);
                check_true(e.name + ":repeated", equal(x, y), "two extractions without a push between: " + diff(x, y) + " after " + std::to_string(i) + base);
            }
        }
        a->cfg.early = false; bool probe = false; for (std::size_t q : probes) probe |= q == i;
        if (probe)
        {
            std::unique_ptr<AnySet> fresh(e.make(cfg)); for (std::size_t j = 0; j < i; ++j) push(*fresh, t, j);
            double p = probs(); Snap x = a->all(p), y = i == n ? never->all(p) : fresh->all(p);
            check_true(e.name + ":looked at", equal(x, y), "looked at " + std::to_string(looks) + " times and never: " + diff(x, y) + " after " + std::to_string(i) + base); count_event("comparisons with a never-extracted twin");
        }
    }
    for (auto const &f : e.feats) count_event("statistic " + f); count_event("extraction points", looks);
    sig(hash_str(e.name)); sig_stream(t.x); nontrivial(n >= 2 && looks); show(base);
}
