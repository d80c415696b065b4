// Event-trace monitor of the framework: probe accumulators report their
// construction, every sample they are given and what they can see of the
// accumulators they depend on; the checker judges the trace against the
// dependency graph (tables emitted by gen_graphs.py).
#ifndef VERIF_PROBE_HPP
#define VERIF_PROBE_HPP
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include "common.hpp"
BOOST_PARAMETER_KEYWORD(probe_tag, extra)
namespace probe {
using namespace vf;
namespace ba = boost::accumulators;
struct Payload
{
    std::vector<int> v;
    explicit Payload(int id = 0) : v{id, id + 1, 7 * id, ~id} {}
    int id() const { return v.size() == 4 && v[1] == v[0] + 1 && v[2] == 7 * v[0] && v[3] == ~v[0] ? v[0] : -999; }    // -999: not intact
};
struct Res { int node; long seen; bool operator==(Res const &o) const { return node == o.node && seen == o.seen; } };
enum Kind { BUILD, GIVEN, VISIT, DEP, LAST };
// sample/weight/covariate/extra as seen (0: not passed)
struct Event { int kind, node; void const *who; int s, w, c, x; int dep; long dep_seen; };
inline std::vector<Event> &trace() { static std::vector<Event> t; return t; }
struct Node { int id, abs; std::vector<int> asks; };      // asks: node ids named in depends_on (after aliasing and weighting)
struct Listed { int node; bool droppable; };
struct Graph { std::string text; std::map<int, Node> nodes; std::vector<Listed> listed; };
template<class Tag> struct deps;                                             // generated: node number, each(args, f): f(result of every feature asked for)
enum : unsigned { ALIVE = 0xa11ce5u };

template<class Sample, class Tag> struct probe_impl : ba::accumulator_base
{
    enum { ID = deps<Tag>::node };
    typedef Res result_type;
    template<class Args> explicit probe_impl(Args const &args) : alive(ALIVE), seen(0)
    {
        log(BUILD, args);
        probe_impl *me = this;
        deps<Tag>::each(args, [me](Res r) { Event e = Event(); e.kind = DEP; e.node = ID; e.who = me; e.dep = r.node; e.dep_seen = r.seen; trace().push_back(e); });
    }
    template<class Args> void operator()(Args const &args)
    {
        ++seen; log(GIVEN, args);
        probe_impl *me = this;
        deps<Tag>::each(args, [me](Res r) { Event e = Event(); e.kind = DEP; e.node = ID; e.who = me; e.dep = r.node; e.dep_seen = r.seen; trace().push_back(e); });
    }
    Res result(ba::dont_care) const { Res r; r.node = alive == ALIVE ? ID : -1; r.seen = seen; return r; }
    template<class Args> void log(int k, Args const &args)
    {
        static Payload const none(0); static int const zero = 0;
        Event e = Event(); e.kind = k; e.node = ID; e.who = this;
        Payload const &p = args[ba::sample | none]; e.s = p.id(); e.w = (int)args[ba::weight | zero];
        Payload const &c = args[ba::covariate1 | none]; e.c = c.id(); e.x = (int)args[::extra | zero];
        trace().push_back(e);
    }
    template<class Args> void on_drop(Args const &) { Event e = Event(); e.kind = LAST; e.node = ID; e.who = this; e.dep_seen = seen; trace().push_back(e); }       // told that it is being dropped for good
    static int node_id() { return ID; }
    unsigned alive; long seen;
};
struct visitor { template<class A> void operator()(A &a) const { Event e = Event(); e.kind = VISIT; e.node = a.node_id(); trace().push_back(e); } };

struct even { template<class A> struct apply : boost::mpl::bool_<A::ID % 2 == 0> {}; };

inline std::string text(std::vector<Event> const &t)
{
    std::ostringstream o; o << " trace:";
    for (auto const &e : t) { if (e.kind == DEP) o << ' ' << e.node << "->" << e.dep << '(' << e.dep_seen << ')'; else o << ' ' << (e.kind == BUILD ? 'B' : e.kind == GIVEN ? 'G' : e.kind == LAST ? 'D' : 'V') << e.node; }
    return o.str();
}
struct Checker
{
    Graph const &g; std::map<int, int> provider;          // abstract feature -> node that provides it
    std::map<int, bool> requested;                        // node -> requested and not yet dropped
    std::set<int> undroppable;                            // nodes that may have been made non-droppable
    explicit Checker(Graph const &g_) : g(g_) {}
    int abs_of(int n) const { return g.nodes.at(n).abs; }
    bool after_deps(std::vector<int> const &order, char const *what, std::string const &wh)
    {
        std::map<int, std::size_t> pos; for (std::size_t i = 0; i < order.size(); ++i) pos[order[i]] = i;
        bool ok = true;
        for (int n : order) for (int a : g.nodes.at(n).asks)
        {
            auto it = provider.find(abs_of(a)); if (it == provider.end()) continue;
            auto q = pos.find(it->second); if (q == pos.end()) continue;
            ok &= check_true(std::string(what) + ":dependencies first", q->second < pos[n], wh + " node " + std::to_string(n) + " comes before " + std::to_string(it->second) + " which it depends on");
        }
        return ok;
    }
    // set just constructed with the given arguments
    bool built(int s, int w, int c, int x, std::string const &wh0)
    {
        std::vector<Event> t = trace(); trace().clear(); std::string wh = wh0 + " " + g.text + text(t);
        std::vector<int> order; std::map<int, int> times;
        for (auto const &e : t) if (e.kind == BUILD)
        {
            order.push_back(e.node);
            check_true("construction:arguments intact", e.s == s && e.w == w && e.c == c && e.x == x, wh + " node " + std::to_string(e.node) + " saw " + std::to_string(e.s) + "," + std::to_string(e.w) + "," + std::to_string(e.c) + "," + std::to_string(e.x));
            if (!check_true("construction:exactly once", ++times[e.node] == 1, wh)) return false;
            auto ins = provider.insert({abs_of(e.node), e.node});
            if (!check_true("construction:one accumulator per feature", ins.second, wh)) return false;
        }
        // every listed feature is provided, by one of the spellings listed for it
        std::map<int, std::vector<int> > cand; for (auto const &n : g.listed) cand[abs_of(n.node)].push_back(n.node);
        std::vector<int> todo; std::set<int> need;
        for (auto const &kv : cand)
        {
            auto it = provider.find(kv.first);
            if (!check_true("construction:listed feature missing", it != provider.end(), wh)) return false;
            bool ok = false; for (int n : kv.second) ok = ok || n == it->second;
            if (!check_true("construction:listed variant not the one used", ok, wh)) return false;
            todo.push_back(it->second);
        }
        while (!todo.empty())
        {
            int n = todo.back(); todo.pop_back(); if (!need.insert(n).second) continue;
            for (int a : g.nodes.at(n).asks)
            {
                auto it = provider.find(abs_of(a));
                if (!check_true("construction:needed feature missing", it != provider.end(), wh + " feature " + std::to_string(abs_of(a)))) return false;
                todo.push_back(it->second);
            }
        }
        for (auto const &n : g.listed) { if (provider[abs_of(n.node)] == n.node) requested[n.node] = true; if (!n.droppable) todo.push_back(n.node); }
        while (!todo.empty()) { int n = todo.back(); todo.pop_back(); if (undroppable.insert(n).second) for (int a : g.nodes.at(n).asks) todo.push_back(a); }
        after_deps(order, "construction", wh);
        for (auto const &e : t) if (e.kind == DEP)
            check_true("construction:dependency usable", e.dep >= 0 && g.nodes.count(e.dep) && provider.at(abs_of(e.dep)) == e.dep && e.dep_seen == 0, wh + " node " + std::to_string(e.node) + " saw " + std::to_string(e.dep));
        count_event("accumulators built", order.size());
        return true;
    }
    std::set<int> live() const
    {
        std::set<int> l; std::vector<int> todo;
        for (auto const &kv : requested) if (kv.second) todo.push_back(kv.first);
        while (!todo.empty()) { int n = todo.back(); todo.pop_back(); if (!l.insert(n).second) continue; for (int a : g.nodes.at(n).asks) todo.push_back(provider.at(abs_of(a))); }
        return l;
    }
    // a feature was just dropped: exactly the accumulators nobody needs any more are told, once, and with what they have seen
    void dropped(std::set<int> const &before, std::string const &wh0)
    {
        std::vector<Event> t = trace(); trace().clear(); std::string wh = wh0 + " " + g.text + text(t); std::set<int> after = live(), told;
        for (auto const &e : t) if (e.kind == LAST)
        {
            check_true("drop:told once", told.insert(e.node).second, wh + " node " + std::to_string(e.node));
            check_true("drop:told too early", before.count(e.node) && !after.count(e.node), wh + " node " + std::to_string(e.node));
            check_eq("drop:told with everything seen", e.dep_seen, count[e.node], wh + " node " + std::to_string(e.node));
        }
        for (int n : before) if (!after.count(n) && !undroppable.count(n)) check_true("drop:not told", told.count(n) == 1, wh + " node " + std::to_string(n));
        count_event("accumulators told of their last drop", told.size());
    }
    std::map<int, long> count;
    bool pushed(int s, int w, int c, int x, std::string const &wh0)
    {
        std::vector<Event> t = trace(); trace().clear(); std::string wh = wh0 + " " + g.text + text(t);
        std::vector<int> order; std::map<int, int> times; std::set<int> l = live(); std::map<int, long> before = count;
        for (auto const &e : t) if (e.kind == GIVEN)
        {
            order.push_back(e.node); ++times[e.node]; ++count[e.node];
            check_true("push:arguments intact", e.s == s && e.w == w && e.c == c && e.x == x, wh + " node " + std::to_string(e.node) + " saw " + std::to_string(e.s) + "," + std::to_string(e.w) + "," + std::to_string(e.c) + "," + std::to_string(e.x));
        }
        bool ok = true;
        for (auto const &kv : provider)
        {
            int n = kv.second, k = times.count(n) ? times[n] : 0;
            if (l.count(n)) ok &= check_true(k == 0 ? "push:live accumulator not reached" : "push:exactly once", k == 1, wh + " node " + std::to_string(n) + " got it " + std::to_string(k) + " times");
            else if (undroppable.count(n)) ok &= check_true("push:exactly once", k <= 1, wh + " node " + std::to_string(n));
            else ok &= check_true("push:dropped accumulator still accumulates", k == 0, wh + " node " + std::to_string(n));
        }
        ok &= after_deps(order, "push", wh);
        // while a node is given a sample, everything live it depends on has already been given it
        for (auto const &e : t) if (e.kind == DEP && e.dep >= 0 && g.nodes.count(e.dep))
            ok &= check_true("push:dependency up to date", e.dep_seen == count[e.dep], wh + " node " + std::to_string(e.node) + " saw " + std::to_string(e.dep_seen) + " in " + std::to_string(e.dep));
        count_event("samples delivered", order.size());
        return ok;
    }
    void visited(std::string const &wh0)
    {
        std::vector<Event> t = trace(); trace().clear(); std::string wh = wh0 + " " + g.text + text(t);
        std::vector<int> order; for (auto const &e : t) if (e.kind == VISIT) order.push_back(e.node);
        std::set<int> s(order.begin(), order.end());
        check_true("visit:each accumulator once", s.size() == order.size() && order.size() == provider.size(), wh);
        after_deps(order, "visit", wh);
    }
    void visited_even(std::string const &wh0)
    {
        std::vector<Event> t = trace(); trace().clear(); std::string wh = wh0 + " " + g.text + text(t);
        std::vector<int> order; for (auto const &e : t) if (e.kind == VISIT) order.push_back(e.node);
        std::set<int> s(order.begin(), order.end()), want; for (auto const &kv : provider) if (kv.second % 2 == 0) want.insert(kv.second);
        check_true("visit_if:each matching accumulator once", s.size() == order.size() && s == want, wh);
        after_deps(order, "visit_if", wh);
    }
    void extracted(int asked, Res r, std::string const &wh)
    {
        auto it = provider.find(abs_of(asked)); if (it == provider.end()) return;
        check_true("extraction:finds the provider", r.node == it->second, wh + " " + g.text + " asked " + std::to_string(asked) + " got " + std::to_string(r.node));
        check_eq("extraction:value", r.seen, count[it->second], wh + " " + g.text + " node " + std::to_string(it->second));
    }
};
} // namespace probe
#endif
