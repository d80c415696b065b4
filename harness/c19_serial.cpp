// C19: saving at any point and loading into a fresh set preserves results and future.
#define VERIF_SERIALIZE 1
#include "anyset.hpp"
using namespace vf; using namespace any;
static Entry const &entry() { sort_entries(); auto const &e = entries(); return e[(std::size_t)(ctx().kase % (long)e.size())]; }
static void judge(std::string const &key, AnySet const &a, AnySet const &b, double p, std::string const &w) { Snap x = a.all(p), y = b.all(p); check_true(key, equal(x, y), diff(x, y) + w); }
#ifdef VERIF_C19_LONG          // counters past 16 bits
SCENARIO(serial_long, 130)
{
    LongCase lc; std::size_t const cn = 60;
#else
SCENARIO(serial, 3200)
{
    std::size_t const cn = 0;
#endif
    Entry const &e = entry(); std::size_t n = 2 + gen_len(r, 250); Stream t = make_stream(r, n); Cfg cfg(r, cn ? cn : n), cfg2(r, cn ? cn : n); double p = .55 + .44 * r.uni(); bool looked = r.chance(.5);
    std::size_t k = r.chance(.1) ? 0 : r.below(n + 1); if (cn && r.chance(.7)) k = n - r.below(100); else if (r.chance(.25)) k = std::min(n, (r.chance(.5) ? cfg.win : r.chance(.5) ? cfg.dcache : cfg.rcache) + r.below(3));        // around full caches and windows
    std::string base = " " + e.name + " {" + cfg.text() + "} saved after " + std::to_string(k) + " of " + std::to_string(n) + (looked ? " looked at" : "") + " x=" + str_seq(t.x, 8); note(e.name);
    std::unique_ptr<AnySet> twin(e.make(cfg)), src(e.make(cfg)); for (std::size_t i = 0; i < k; ++i) { push(*twin, t, i); push(*src, t, i); if (looked && r.chance(n > 2000 ? .0003 : .2)) src->all(p); } if (looked && r.chance(.7)) src->all(p);
    std::vector<std::pair<std::unique_ptr<AnySet>, std::string> > c;
    for (int bin = 0; bin < 2; ++bin)
    {
        std::string nm = bin ? "binary" : "text"; std::stringstream a(std::ios::in | std::ios::out | std::ios::binary); src->save(a, bin); count_event(nm + " archives"); count_event("archived bytes", a.str().size());
        bool other = r.chance(.4); std::unique_ptr<AnySet> f(e.make(other ? cfg2 : cfg)); f->cfg = cfg; f->load(a, bin); f->n = src->n; if (other) { nm += " into another configuration"; count_event("loaded into a set of another configuration"); }
        if (r.chance(.2)) { std::stringstream b(std::ios::in | std::ios::out | std::ios::binary); f->save(b, !bin); std::unique_ptr<AnySet> g(e.make(r.chance(.5) ? cfg2 : cfg)); g->cfg = cfg; g->load(b, !bin); g->n = f->n; f.swap(g); nm += " and back"; }     // a second generation
        c.emplace_back(std::move(f), nm);
    }
    c.emplace_back(std::move(src), "saved set itself");
    if (r.chance(.6)) for (auto &x : c) judge(e.name + ":" + x.second + " at once", *x.first, *twin, p, base + " " + x.second);
    Schedule s(r, n);
    for (std::size_t i = k; i < n;)
    {
        push(*twin, t, i); for (auto &x : c) push(*x.first, t, i); ++i;
        if (s.at(r, i)) { for (auto &x : c) judge(e.name + ":" + x.second + " continued", *x.first, *twin, p, base + " " + x.second); count_event("continuation points"); }
    }
    for (auto &x : c) judge(e.name + ":" + x.second + " at the end", *x.first, *twin, p, base + " " + x.second);
    for (auto const &f : e.feats) count_event("statistic " + f); count_event(k == 0 ? "saved empty" : k < n ? "saved mid-stream" : "saved at the end"); sig(hash_str(e.name)); sig_stream(t.x); sig((std::uint64_t)k); nontrivial(); show(base);
}
