// C15: a statistic in company reports what it reports alone.
#include "anyset.hpp"
using namespace vf; using namespace any;
static std::vector<Entry const *> combos()
{
    static std::vector<Entry const *> v; sort_entries();
    if (v.empty()) for (auto const &e : entries()) if (e.feats.size() > 1) v.push_back(&e);
    return v;
}
SCENARIO(combined, 1600)
{
    auto const &cs = combos(); Entry const &e = *cs[(std::size_t)(ctx().kase % (long)cs.size())];
    std::size_t n = gen_len(r, 400); Stream t = make_stream(r, n); Cfg cfg(r, n);
    std::unique_ptr<AnySet> a(e.make(cfg)); std::vector<std::unique_ptr<AnySet> > solo;
    for (auto const &f : e.feats) solo.emplace_back(solos().at(f)->make(cfg));
    double scale = 0; Schedule s(r, n); std::string base = e.name + " " + cfg.text() + " " + kind_name(t.kind) + " x=" + str_seq(t.x, 8);
    for (std::size_t i = 0; i < n;)
    {
        push(*a, t, i); for (auto &q : solo) push(*q, t, i); scale = std::max(scale, 1e-3 * std::fabs(t.x[i])); ++i;
        if (!s.at(r, i)) continue;
        double p = .55 + .44 * r.uni();
        for (std::size_t f = 0; f < e.feats.size(); ++f)
        {
            Snap x, y; a->snap((int)f, x, p); solo[f]->snap(0, y, p);
            check_true(e.feats[f] + ":in company", close(x, y, 0), e.feats[f] + " combined and alone: " + diff(x, y) + " after " + std::to_string(i) + " " + base);
        }
        count_event("extraction points");
    }
    for (auto const &f : e.feats) count_event("statistic " + f); sig(hash_str(e.name)); sig_stream(t.x); nontrivial(n >= 2); show(base + " [" + std::to_string(e.feats.size()) + " statistics]");
}
