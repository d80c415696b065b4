// Type-erased sets: every statistic of the library, alone and in combinations
// (instantiated by gen_sets.py), behind one interface.
#ifndef VERIF_ANYSET_HPP
#define VERIF_ANYSET_HPP
#include "common.hpp"
#include <memory>
#include <boost/tuple/tuple.hpp>
#ifdef VERIF_SERIALIZE
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/codecvt_null.hpp>
#include <boost/math/special_functions/nonfinite_num_facets.hpp>
#include <locale>
#endif
namespace any {
using namespace vf;
struct Cfg
{
    std::size_t win, rcache, lcache, bins, dcache, cells; std::vector<double> probs; double qp, thr, tprob; bool early = false;       // early: extract even before the statistic has the samples it needs
    explicit Cfg(Rng &r, std::size_t n = 60)
      : win(1 + r.below(r.chance(.5) ? 5 : 20)), rcache(1 + r.below(r.chance(.3) ? 2 * n + 4 : 12)), lcache(1 + r.below(r.chance(.3) ? 2 * n + 4 : 12)), bins(1 + r.below(8)), dcache(2 + r.below(r.chance(.5) ? 4 : 20)),
        cells(2 + r.below(8)), qp(.05 + .9 * r.uni()), thr(r.normal()), tprob(.5 + .45 * r.uni())
    {
        std::size_t k = 2 + r.below(4); for (std::size_t i = 1; i <= k; ++i) probs.push_back((i - .3 * r.uni()) / (k + .5));
    }
    std::string text() const { std::ostringstream o; o << "win=" << win << " caches=" << rcache << "/" << lcache << " bins=" << bins << "/" << dcache << " cells=" << cells << " probs=" << str_seq(probs) << " qp=" << qp << " thr=" << thr << " tprob=" << tprob; return o.str(); }
};
inline int small(double x, int m) { return !(std::fabs(x) < 1e9) ? m : (int)std::fmod(std::floor(x * 4), m + 1.0); }
// one snapshot: a list of numbers (doubles compare bit for bit up to NaN)
typedef std::vector<double> Snap;
struct Out
{
    Snap &v; explicit Out(Snap &o) : v(o) {}
    void operator()(double d) const { v.push_back(d); }
    template<class A, class B> void pair(std::pair<A, B> const &p) const { v.push_back((double)p.first); v.push_back((double)p.second); }
    template<class R> void range(R const &r) const { v.push_back((double)std::distance(r.begin(), r.end())); for (auto it = r.begin(); it != r.end(); ++it) v.push_back((double)*it); }
    template<class R> void pairs(R const &r) const { v.push_back((double)std::distance(r.begin(), r.end())); for (auto it = r.begin(); it != r.end(); ++it) { v.push_back((double)it->first); v.push_back((double)it->second); } }
    template<class T> void fit(T const &t) const { v.push_back((double)boost::get<0>(t)); v.push_back((double)boost::get<1>(t)); v.push_back((double)boost::get<2>(t)); }
};
inline bool equal(Snap const &a, Snap const &b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
inline bool close(Snap const &a, Snap const &b, double scale)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i]) && !(std::fabs(a[i] - b[i]) <= 1e-9 * std::max(std::max(std::fabs(a[i]), std::fabs(b[i])), scale))) return false;
    return true;
}
struct AnySet
{
    Cfg cfg; std::size_t n;
    explicit AnySet(Cfg const &c) : cfg(c), n(0) {}
    virtual ~AnySet() {}
    virtual void push(double x, double w, double c1, double c2) = 0;
    virtual void snap(int f, Snap &o, double p) const = 0;          // extract feature f (p: extraction probability); empty while it is not ready
    virtual int features() const = 0;
    virtual AnySet *clone() const = 0;
    virtual void assign(AnySet const &) = 0;
    virtual AnySet *moved() = 0;                                    // a set built from this one, given away
    virtual void take(AnySet &) = 0;                                // assigned from a set given away
    virtual void exchange(AnySet &) = 0;                            // std::swap
    virtual std::size_t footprint() const = 0;
#ifdef VERIF_SERIALIZE
    virtual void save(std::ostream &, bool binary) const = 0;
    virtual void load(std::istream &, bool binary) = 0;
#endif
    Snap all(double p) const { Snap s; for (int f = 0; f < features(); ++f) { snap(f, s, p); s.push_back(-7.25); } return s; }
};
struct Entry { std::string name; std::vector<std::string> feats; bool weighted; std::function<AnySet *(Cfg const &)> make; };
inline std::vector<Entry> &entries() { static std::vector<Entry> e; return e; }
struct Add { Add(Entry e) { entries().push_back(std::move(e)); } };
inline void sort_entries() { static bool done = false; if (!done) { done = true; std::sort(entries().begin(), entries().end(), [](Entry const &a, Entry const &b) { return a.name < b.name; }); } }
inline std::map<std::string, Entry const *> const &solos()
{
    static std::map<std::string, Entry const *> m; sort_entries();
    if (m.empty()) for (auto const &e : entries()) if (e.feats.size() == 1) m[e.feats[0]] = &e;
    return m;
}
struct Stream { std::vector<double> x, w, c1, c2; int kind; std::size_t size() const { return x.size(); } };
inline Stream make_stream(Rng &r, std::size_t n)
{
    Stream s; s.kind = (int)r.below(NKINDS); s.x = gen(r, n, s.kind); s.c1 = gen(r, n, (int)r.below(NKINDS)); s.c2 = gen(r, n, (int)r.below(NKINDS)); s.w.resize(n);
    bool ints = r.chance(.4); for (double &v : s.w) v = ints ? (double)r.range(1, 5) : r.uni() + .02;
    return s;
}
inline void push(AnySet &s, Stream const &t, std::size_t i) { s.push(t.x[i], t.w[i], t.c1[i], t.c2[i]); }
inline std::string diff(Snap const &a, Snap const &b)
{
    std::ostringstream o; o.precision(17); if (a.size() != b.size()) { o << "sizes " << a.size() << " and " << b.size(); return o.str(); }
    for (std::size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) { o << "element " << i << ": " << a[i] << " and " << b[i]; return o.str(); }
    return "equal";
}
} // namespace any
#endif
