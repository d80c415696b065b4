// Random operation sequences on one generated set, judged after every operation.
#include "probe.hpp"
#include <memory>
namespace probe {
template<class D, int I> struct form_
{
    template<class S> static void call(S &s, int i, Payload const &p, int id, int w, int c, int x)
    {
        if (i != I) { form_<D, I + 1>::call(s, i, p, id, w, c, x); return; }
        using namespace ba;
        if constexpr (!D::template has_form<I>::value) return;
        else if constexpr (I == 0) s(p);
        else if constexpr (I == 1) s(Payload(id));
        else if constexpr (I == 2) s(p, weight = w);
        else if constexpr (I == 3) s(p, covariate1 = Payload(c), weight = w);
        else if constexpr (I == 4) s(p, weight = w, covariate1 = Payload(c), ::extra = x);
        else if constexpr (I == 5) s(Payload(id), ::extra = x, covariate1 = Payload(c), weight = int(w));
        else if constexpr (I == 6) s(sample = p, weight = w);
        else if constexpr (I == 7) s(weight = w, sample = Payload(id), ::extra = x);
        else if constexpr (I == 8) s();
        else s(::extra = x, weight = w, covariate1 = Payload(c), sample = p);
    }
};
template<class D> struct form_<D, 10> { template<class S> static void call(S &, int, Payload const &, int, int, int, int) {} };
inline void mask(int form, int &s, int &w, int &c, int &x)
{
    bool W = form == 2 || form >= 3 && form <= 7 || form == 9, C = form >= 3 && form <= 5 || form == 9, X = form == 4 || form == 5 || form == 7 || form == 9, S = form != 8;
    if (!S) s = 0; if (!W) w = 0; if (!C) c = 0; if (!X) x = 0;
}
template<class D, class Set> Set *make(int i, Payload const &p, int id, int w, int c, int x)
{
    using namespace ba;
    if constexpr (D::template has_ctor<1>::value) if (i == 1) return new Set(sample = p);
    if constexpr (D::template has_ctor<2>::value) if (i == 2) return new Set(Payload(id));
    if constexpr (D::template has_ctor<3>::value) if (i == 3) return new Set(::extra = x, covariate1 = Payload(c), sample = p);
    if constexpr (D::template has_ctor<4>::value) if (i == 4) return new Set(p, weight = w, ::extra = int(x));
    return new Set;
}
template<class D> void run(Rng &r)
{
    typedef typename D::Set Set; trace().clear();
    Checker c0(D::graph()); int cf = D::ctor(r), id = 1 + (int)r.below(1000), w = 1 + (int)r.below(9), c = 2000 + (int)r.below(100), x = 1 + (int)r.below(50);
    Payload p(id); std::unique_ptr<Set> s(make<D, Set>(cf, p, id, w, c, x));
    std::string wh = "constructor form " + std::to_string(cf);
    if (!c0.built(cf ? id : 0, cf == 4 ? w : 0, cf == 3 ? c : 0, cf == 3 || cf == 4 ? x : 0, wh)) return;
    struct Inst { std::unique_ptr<Set> s; Checker c; std::set<int> dropped; };
    std::vector<Inst> in; in.push_back(Inst{std::move(s), c0, {}});
    std::size_t n = 4 + r.below(20); sig(hash_str(D::graph().text));
    for (std::size_t k = 0; k < n; ++k)
    {
        std::size_t q = r.below(in.size()); Inst &i = in[q]; double u = r.uni(); std::string wh = "operation " + std::to_string(k) + " on set " + std::to_string(q);
        if (u < .6)
        {
            int f = D::form(r), id = 1 + (int)r.below(1000), w = 1 + (int)r.below(9), c = 2000 + (int)r.below(100), x = 1 + (int)r.below(50);
            Payload p(id); form_<D, 0>::call(*i.s, f, p, id, w, c, x);
            int es = id, ew = w, ec = c, ex = x; mask(f, es, ew, ec, ex); sig((std::uint64_t)f);
            if (!i.c.pushed(es, ew, ec, ex, wh + " push form " + std::to_string(f))) return;
            check_eq("push:argument left alone", p.id(), id, wh);
        }
        else if (u < .68) { i.s->visit(visitor()); i.c.visited(wh); sig((std::uint64_t)101); }
        else if (u < .72) { i.s->template visit_if<even>(visitor()); i.c.visited_even(wh); sig((std::uint64_t)104); }
        else if (u < .86 && D::ndrop())
        {
            int d = (int)r.below(D::ndrop());
            if (!i.dropped.count(d)) { std::set<int> was = i.c.live(); trace().clear(); i.dropped.insert(d); D::drop(*i.s, d); i.c.requested[D::drop_node(d)] = false; i.c.dropped(was, wh + " drop of " + std::to_string(D::drop_node(d))); count_event("drops"); sig((std::uint64_t)(200 + d)); }
        }
        else if (u < .9 && in.size() < 3)
        {
            Inst j{std::unique_ptr<Set>(new Set(*i.s)), i.c, i.dropped}; in.push_back(std::move(j)); count_event("copies"); sig((std::uint64_t)102 + q);
        }
        else { D::extract(*i.s, i.c, wh); sig((std::uint64_t)103); }
        trace().clear();
    }
    for (auto &i : in) { D::extract(*i.s, i.c, "at the end"); trace().clear(); }
    nontrivial(true); show(D::graph().text);
}
} // namespace probe
