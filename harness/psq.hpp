// Set-valued reference of the (weighted, extended) P-square recurrences.
// Where rounding decides a comparison the reference follows both outcomes and
// keeps every state that can still explain what has been observed.
#ifndef VERIF_PSQ_HPP
#define VERIF_PSQ_HPP
#include "ref.hpp"
namespace vf {
struct PsqState
{
    std::vector<ld> h, pos; std::vector<char> exact;   // exact: the height is one of the samples, without rounding
};
struct Psq
{
    std::size_t M; std::vector<ld> inc; bool exactpos;  // exactpos: positions and desired positions involve no rounding
    std::vector<PsqState> st; bool live = true, chaotic = false; std::size_t n = 0; ld W = 0, mn = 0, mx = 0, A = 0;
    std::vector<std::pair<ld, ld> > init; std::size_t cap; std::size_t forks = 0;
    Psq(std::vector<ld> const &inc_, bool ex, std::size_t cap_ = 48) : M(inc_.size()), inc(inc_), exactpos(ex), cap(cap_) {}
    bool ready() const { return n >= M; }
    ld tolh() const { return 1e-11L * (mx - mn) + 1e-13L * A; }          // closer than this: rounding decides
    ld tolc() const { return 1e-8L * (mx - mn) + 1e-11L * A; }           // comparison with what was observed
    ld tolp() const { return exactpos ? 0 : 1e-10L * (W + 1); }
    void push(ld x, ld w)
    {
        if (n == 0) mn = mx = x;
        mn = std::min(mn, x); mx = std::max(mx, x); A = std::max(A, (ld)std::fabs(x)); ++n; W += w;
        if (n <= M)
        {
            init.push_back(std::make_pair(x, w));
            if (n == M)
            {
                std::stable_sort(init.begin(), init.end(), [](std::pair<ld, ld> const &a, std::pair<ld, ld> const &b) { return a.first < b.first; });
                for (std::size_t i = 1; i < M; ++i) if (init[i].first == init[i - 1].first && init[i].second != init[i - 1].second) { live = false; return; }
                PsqState s; ld c = 0;
                for (auto &p : init) { c += p.second; s.h.push_back(p.first); s.pos.push_back(c); s.exact.push_back(1); }
                st.push_back(s);
            }
            return;
        }
        if (!live) return;
        std::vector<PsqState> next;
        for (auto &s : st) step(s, x, w, next);
        st.swap(next);
        if (chaotic) { live = false; st.clear(); inconclusive("colliding markers"); return; }
        if (st.size() > cap) { live = false; st.clear(); inconclusive("too many rounding ties"); }
    }
    void step(PsqState const &s0, ld x, ld w, std::vector<PsqState> &out)
    {
        // cells the sample may belong to: number of markers not above it, clamped to the inner cells
        ld t = tolh(); std::size_t lo = 0, hi = 0;
        for (std::size_t i = 0; i < M; ++i)
        {
            bool sure = s0.exact[i] || s0.h[i] == x ? s0.exact[i] : std::fabs(s0.h[i] - x) > t;
            bool le = s0.h[i] <= x;
            if (sure) { if (le) { ++lo; ++hi; } } else ++hi;
        }
        for (std::size_t c = lo; c <= hi; ++c)
        {
            PsqState s = s0; std::size_t k = c;
            if (c == 0) { s.h[0] = x; s.pos[0] = w; s.exact[0] = 1; k = 1; }
            else if (c == M) { s.h[M - 1] = x; s.exact[M - 1] = 1; k = M - 1; }
            for (std::size_t i = k; i < M; ++i) s.pos[i] += w;
            if (c != lo) ++forks;
            adjust(s, 1, out);
            if (out.size() > 4 * cap) return;
        }
    }
    // three-valued comparison with a threshold: 1 yes, 0 no, 2 either
    static int cmp(ld a, ld b, ld t, bool strict)
    {
        if (t == 0) return strict ? a > b : a >= b;
        if (std::fabs(a - b) <= t) return 2;
        return a > b;
    }
    void adjust(PsqState s, std::size_t i, std::vector<PsqState> &out)
    {
        for (; i + 1 < M; ++i)
        {
            ld des = s.pos[0] + (W - s.pos[0]) * inc[i], d = des - s.pos[i], dp = s.pos[i + 1] - s.pos[i], dm = s.pos[i - 1] - s.pos[i], t = tolp();
            int up = cmp(d, 1, t, false), up2 = cmp(dp, 1, t, true), dn = cmp(-d, 1, t, false), dn2 = cmp(-dm, 1, t, true);
            int goup = up == 0 || up2 == 0 ? 0 : (up == 1 && up2 == 1) ? 1 : 2, godn = dn == 0 || dn2 == 0 ? 0 : (dn == 1 && dn2 == 1) ? 1 : 2;
            if (goup == 0 && godn == 0) continue;
            int sg = goup ? 1 : -1; int dec = goup ? goup : godn;
            if (!exactpos && (dp < 1e-5L || -dm < 1e-5L)) { chaotic = true; return; }   // colliding markers: rounding decides everything after
            if (dec == 2) { ++forks; if (out.size() <= 4 * cap) adjust(s, i + 1, out); }   // follow "no move" separately
            ld dh1 = s.h[i + 1] - s.h[i], dh0 = s.h[i - 1] - s.h[i];
            bool flat = dh1 == 0 && dh0 == 0 && s.exact[i] && s.exact[i - 1] && s.exact[i + 1];
            if (!flat)
            {
                ld hp = dh1 / dp, hm = dh0 / dm;
                ld h = s.h[i] + sg / (dp - dm) * ((sg - dm) * hp + (dp - sg) * hm), lin = sg > 0 ? s.h[i] + hp : s.h[i] - hm;
                int a = cmp(h, s.h[i - 1], tolh(), true), b = cmp(s.h[i + 1], h, tolh(), true);
                if (a == 2 || b == 2)
                {
                    if (std::fabs(h - lin) > 1e-4L * tolh() && a != 0 && b != 0)
                    {
                        ++forks; PsqState q = s; q.h[i] = lin; q.exact[i] = 0; q.pos[i] += sg;
                        if (out.size() <= 4 * cap) adjust(q, i + 1, out);
                    }
                    s.h[i] = (a != 0 && b != 0) ? h : lin;
                }
                else s.h[i] = a && b ? h : lin;
                s.exact[i] = 0;
            }
            s.pos[i] += sg;
        }
        out.push_back(s);
    }
    // keep the states explaining the observation; false if none does
    template<class F> bool observe(F f)
    {
        std::vector<PsqState> keep;
        for (auto &s : st) if (f(s)) keep.push_back(s);
        if (keep.empty()) return false;
        st.swap(keep); return true;
    }
    std::string dump(std::size_t i) const { std::string o; for (std::size_t k = 0; k < st.size() && k < 4; ++k) o += (k ? " or " : "") + str(st[k].h[i]); return o; }
};
// a probability of few bits (exact bookkeeping) or any
inline double gen_prob(Rng &r, bool dyadic)
{
    if (dyadic) return (double)r.range(1, 63) / 64;
    double u = r.uni();
    return u < .1 ? 1e-3 * r.uni_open() : u < .2 ? 1 - 1e-3 * r.uni_open() : r.uni_open();
}
template<class S> std::vector<S> psq_stream(Rng &r, std::size_t n, int &kind)
{
    kind = (int)r.below(NKINDS);
    std::vector<double> d = gen(r, n, kind, std::is_integral<S>::value ? 50 : r.chance(.6) ? 1 : std::pow(10.0, (double)r.range(-4, 4)));
    std::vector<S> x(n);
    for (std::size_t i = 0; i < n; ++i) x[i] = (S)(std::is_integral<S>::value ? std::floor(std::fabs(d[i]) > 1e6 ? (d[i] < 0 ? -1e6 : 1e6) : d[i]) : d[i]);
    return x;
}
inline std::vector<double> psq_weights(Rng &r, std::size_t n, bool integral)
{
    std::vector<double> w(n); int m = (int)r.below(4); bool zero = integral && r.chance(.15);
    for (double &v : w) v = integral ? (m == 0 ? 1 : (double)r.range(1, 5)) : (m == 0 ? r.uni_open() + 1e-3 : m == 1 ? 1 + r.uni() : m == 2 ? 5 * r.uni_open() + 1e-3 : 1.0 / 3);
    if (zero) for (std::size_t i = 1; i < n; ++i) if (r.chance(.2)) w[i] = 0;       // a pair without weight
    return w;
}
inline std::size_t psq_len(Rng &r, std::size_t M) { if (long_case()) return M + long_len(r); double u = r.uni(); return u < .15 ? M + r.below(3) : u < .9 ? M + r.below(120) : u < .985 ? M + r.below(700) : M + r.below(4000); }
}
#endif
