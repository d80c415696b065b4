// C18: copies and assignments are independent, equivalent values.
#include "anyset.hpp"
using namespace vf; using namespace any;
static void judge(std::string const &key, AnySet const &a, AnySet const &b, double p, std::string const &w)
{
    Snap x = a.all(p), y = b.all(p); check_true(key, equal(x, y), diff(x, y) + w);
}
static Entry const &entry() { sort_entries(); auto const &e = entries(); return e[(std::size_t)(ctx().kase % (long)e.size())]; }
SCENARIO(copies, 1600)
{
    Entry const &e = entry(); std::size_t n = 2 + gen_len(r, 300); Stream t = make_stream(r, n), u = make_stream(r, n); Cfg cfg(r, n), cfg2(r, n);
    std::size_t k = r.below(n + 1), m = std::min(n, k + r.below(r.chance(.5) ? 8 : n - k + 1)); double p = .55 + .44 * r.uni();
    bool looked = r.chance(.4);       // had the source been looked at before it was copied?
    std::string base = " " + e.name + " {" + cfg.text() + "} copied after " + std::to_string(k) + " of " + std::to_string(n) + " " + kind_name(t.kind) + " x=" + str_seq(t.x, 8);
    std::unique_ptr<AnySet> twin(e.make(cfg)), src(e.make(cfg));
    for (std::size_t i = 0; i < k; ++i) { push(*twin, t, i); push(*src, t, i); if (looked && r.chance(.1)) src->all(p); }
    // the copies: constructed, assigned over a set with other arguments and data, assigned over an equal one, over a fresh one, copy of a copy
    std::vector<std::unique_ptr<AnySet> > c; std::vector<char const *> nm;
    c.emplace_back(src->clone()); nm.push_back("copy");
    { std::unique_ptr<AnySet> d(e.make(cfg2)); std::size_t j = r.below(n + 1); for (std::size_t i = 0; i < j; ++i) push(*d, u, i); if (r.chance(.5)) d->all(p); d->assign(*src); c.push_back(std::move(d)); nm.push_back("assigned over another state"); }
    { std::unique_ptr<AnySet> d(e.make(cfg)); std::size_t j = r.below(k + 3); for (std::size_t i = 0; i < j && i < n; ++i) push(*d, u, i); d->assign(*src); c.push_back(std::move(d)); nm.push_back("assigned over the same configuration"); }
    { std::unique_ptr<AnySet> d(e.make(cfg2)); d->assign(*src); c.push_back(std::move(d)); nm.push_back("assigned over an empty set"); }
    { std::unique_ptr<AnySet> d(c[0]->clone()), f(e.make(cfg2)); f->assign(*d); d.reset(); c.push_back(std::move(f)); nm.push_back("assigned from a copy that is gone"); }
    { std::unique_ptr<AnySet> d(src->clone()); d->assign(*d); c.push_back(std::move(d)); nm.push_back("self-assigned"); }
    { std::unique_ptr<AnySet> d(src->clone()); c.emplace_back(d->moved()); nm.push_back("moved to"); }
    { std::unique_ptr<AnySet> d(src->clone()), f(e.make(cfg2)); std::size_t j = r.below(n + 1); for (std::size_t i = 0; i < j; ++i) push(*f, u, i); f->take(*d); d.reset(); c.push_back(std::move(f)); nm.push_back("move-assigned over another state"); }
    {
        std::unique_ptr<AnySet> d(src->clone()), f(e.make(cfg2)); std::size_t j = r.below(n + 1); for (std::size_t i = 0; i < j; ++i) push(*f, u, i);
        std::unique_ptr<AnySet> g(f->clone()); f->exchange(*d); judge(e.name + ":swapped against", *d, *g, p, base); c.push_back(std::move(f)); nm.push_back("swapped");
    }
    if (r.chance(.5)) for (std::size_t q = 0; q < c.size(); ++q) judge(e.name + ":" + nm[q] + " at once", *c[q], *src, p, base);
    // the source (or one copy) moves on alone: nobody else changes
    {
        std::size_t who = r.below(c.size() + 1); AnySet &mover = who == c.size() ? *src : *c[who]; std::size_t j = 1 + r.below(m + 2); std::unique_ptr<AnySet> keep;
        if (r.chance(.5)) { for (std::size_t i = 0; i < j && i < n; ++i) push(mover, u, i); if (r.chance(.3)) mover.assign(*e.make(cfg2)); }
        else { if (who == c.size()) src.reset(); else c[who].reset(); }                  // ... or is destroyed
        std::vector<std::pair<AnySet *, std::string> > rest; if (who != c.size()) rest.emplace_back(src.get(), "source"); for (std::size_t q = 0; q < c.size(); ++q) if (q != who) rest.emplace_back(c[q].get(), nm[q]);
        std::string w = base + ", after " + (who == c.size() ? "the source" : nm[who]) + " moved on alone";
        if (r.chance(.5)) for (auto &x : rest) judge(e.name + ":" + x.second + " untouched", *x.first, *twin, p, w);
        std::size_t i = k; Schedule s(r, n);
        for (; i < n;)
        {
            push(*twin, t, i); for (auto &x : rest) push(*x.first, t, i); ++i;
            if (i == m || s.at(r, i)) { for (auto &x : rest) judge(e.name + ":" + x.second + " continued", *x.first, *twin, p, w); count_event("continuation points"); }
        }
        for (auto &x : rest) judge(e.name + ":" + x.second + " at the end", *x.first, *twin, p, w);
    }
    for (auto const &f : e.feats) count_event("statistic " + f); count_event(k == 0 ? "copied empty" : k < n ? "copied mid-stream" : "copied at the end");
    sig(hash_str(e.name)); sig_stream(t.x); sig((std::uint64_t)k); nontrivial(n >= 2); show(base);
}
