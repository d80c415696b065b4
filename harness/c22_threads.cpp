// C22: threads working on their own sets neither race nor disturb each other.
#include "anyset.hpp"
#include <thread>
#include <atomic>
using namespace vf; using namespace any;
struct Prog { std::vector<Entry const *> sets; std::uint64_t seed; std::size_t n; };
// one thread's work: a deterministic function of the program
static void work(Prog const &p, std::vector<Snap> &out, bool yields)
{
    Rng r(p.seed); Stream t = make_stream(r, p.n); std::vector<std::unique_ptr<AnySet> > s; std::vector<Cfg> c;
    for (Entry const *e : p.sets) { c.emplace_back(r, p.n); s.emplace_back(e->make(c.back())); }
    for (std::size_t i = 0; i < p.n; ++i)
    {
        for (auto &x : s) push(*x, t, i);
        double u = r.uni(), q = r.chance(.7) ? .6 + .35 * r.uni() : r.chance(.5) ? r.uni() : r.chance(.5) ? .999 : .001; std::size_t k = r.below(s.size());
        if (u < .2) out.push_back(s[k]->all(q));
        else if (u < .25) { std::unique_ptr<AnySet> d(s[k]->clone()); if (r.chance(.5)) s[k].swap(d); out.push_back(d->all(q)); }
        else if (u < .28) { std::unique_ptr<AnySet> d(p.sets[k]->make(c[k])); d->assign(*s[k]); s[k].swap(d); }
        else if (u < .32) { if (yields) std::this_thread::yield(); }
        else if (u < .33) s[k].reset(p.sets[k]->make(c[k]));
    }
    for (auto &x : s) out.push_back(x->all(.8));
}
SCENARIO(threads, 600)
{
    sort_entries(); auto const &es = entries(); std::size_t T = 2 + r.below(5), m = 1 + r.below(4); std::vector<Prog> pr(T); bool same_types = r.chance(.7), same_seed = r.chance(.3);
    std::vector<Entry const *> base; base.push_back(&es[(std::size_t)(ctx().kase % (long)es.size())]); for (std::size_t i = 1; i < m; ++i) base.push_back(&r.pick(es));
    std::uint64_t sd = r.next(); std::string w;
    for (auto &p : pr) { p.sets = base; if (!same_types) for (std::size_t i = 1; i < m; ++i) p.sets[i] = &r.pick(es); p.seed = same_seed ? sd : r.next(); p.n = 5 + r.below(80); }
    for (auto *e : base) w += " " + e->name; note(w);
    std::vector<std::vector<Snap> > got(T); std::atomic<int> ready(0); std::vector<std::thread> th;
    for (std::size_t k = 0; k < T; ++k) th.emplace_back([&, k] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < (int)T) std::this_thread::yield(); work(pr[k], got[k], true); });
    for (auto &x : th) x.join();
    for (std::size_t k = 0; k < T; ++k)
    {
        std::vector<Snap> ref; work(pr[k], ref, false); check_true("threads:number of results", ref.size() == got[k].size(), w);
        for (std::size_t i = 0; i < ref.size() && i < got[k].size(); ++i) check_true("threads:" + base[0]->name, equal(ref[i], got[k][i]), "thread " + std::to_string(k) + " of " + std::to_string(T) + " result " + std::to_string(i) + ": alone and among threads " + diff(ref[i], got[k][i]) + w);
        sig(pr[k].seed); count_event("results compared", ref.size());
    }
    count_event("threads run", T); for (auto *e : base) { sig(hash_str(e->name)); for (auto const &f : e->feats) count_event("statistic " + f); } nontrivial(); show(std::to_string(T) + " threads on" + w);
}
