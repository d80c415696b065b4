// C21: hostile histories of every statistic under memory and undefined-behaviour monitors, and failing allocations.
#include "anyset.hpp"
#include "hooks.hpp"
using namespace vf; using namespace any;
static Entry const &entry() { sort_entries(); auto const &e = entries(); return e[(std::size_t)(ctx().kase % (long)e.size())]; }
static Cfg hostile_cfg(Rng &r, std::size_t n)
{
    Cfg c(r, n); c.early = true;
    if (r.chance(.3)) c.win = 1 + r.below(3); if (r.chance(.3)) c.rcache = 1 + r.below(3); if (r.chance(.3)) c.lcache = 1 + r.below(3); if (r.chance(.3)) c.bins = 1 + r.below(2); if (r.chance(.3)) c.dcache = 1 + r.below(3); if (r.chance(.3)) c.cells = 1 + r.below(3);
    if (r.chance(.2)) c.probs.assign(1, .01 + .98 * r.uni()); if (r.chance(.2)) { c.probs.clear(); for (int i = 1; i < 20; ++i) c.probs.push_back(i / 20.); }
    if (r.chance(.2)) c.qp = r.chance(.5) ? .001 : .999; if (r.chance(.2)) c.thr = r.chance(.5) ? 1e9 : -1e9; if (r.chance(.2)) c.tprob = r.chance(.5) ? .01 : .999;
    return c;
}
static Stream hostile_stream(Rng &r, std::size_t n)
{
    Stream t = make_stream(r, n); int k = (int)r.below(6);
    for (std::size_t i = 0; i < n; ++i)
        if (k == 0 && r.chance(.1)) t.x[i] = (r.chance(.5) ? 1 : -1) * (r.chance(.5) ? 1e300 : 1e-300);
        else if (k == 1 && r.chance(.1)) t.x[i] = r.chance(.5) ? 0.0 : -0.0;
        else if (k == 2) t.x[i] = (double)(r.below(2));
    return t;
}
static double hostile_p(Rng &r) { double u = r.uni(); return u < .1 ? 0 : u < .2 ? 1 : u < .25 ? .5 : u < .3 ? 1e-12 : u < .35 ? 1 - 1e-12 : r.uni(); }
#ifdef VERIF_VALGRIND
#define N1 400
#define N2 0
#else
#define N1 2400
#define N2 1600
#endif
SCENARIO(hostile, N1)
{
    Entry const &e = entry(); std::size_t n = 1 + gen_len(r, 150); Stream t = hostile_stream(r, n); std::vector<Cfg> cfg; for (int i = 0; i < 3; ++i) cfg.push_back(hostile_cfg(r, n));
    std::string base = e.name + " {" + cfg[0].text() + "} x=" + str_seq(t.x, 6); note(e.name); Meter held; std::string ops;
    {
        std::unique_ptr<AnySet> s[3]; Snap keep; keep.reserve(65536); std::size_t at = 0; int steps = 20 + (int)r.below(60); double look = r.uni();
        for (int q = 0; q < steps; ++q)
        {
            std::size_t i = r.below(3), j = r.below(3); double u = r.uni();
            if (!s[i]) { held([&] { s[i].reset(e.make(cfg[i])); }); ops += 'c'; }
            if (u < .55) { std::size_t k = r.chance(.5) ? 1 : r.below(30); for (; k-- > 0; ++at) held([&] { push(*s[i], t, at % n); }); ops += 'p'; }
            else if (u < .65) { if (s[j]) { held([&] { s[i]->assign(*s[j]); }); ops += i == j ? 'S' : 'a'; } }
            else if (u < .72) { held([&] { std::unique_ptr<AnySet> c(s[i]->clone()); s[j].swap(c); }); ops += 'k'; }
            else if (u < .78) { held([&] { s[i].reset(); }); ops += 'd'; continue; }
            if (r.chance(look)) { double p = hostile_p(r); int f = r.chance(.6) ? -1 : (int)r.below((std::uint64_t)s[i]->features()); held([&] { for (int g = 0; g < s[i]->features(); ++g) if (f < 0 || f == g) { keep.clear(); s[i]->snap(g, keep, p); } }); ops += 'e'; count_event("extractions"); }
            observed();
        }
        for (auto &x : s) held([&] { x.reset(); });
    }
    check_true(e.name + ":leak", held.bytes == 0 && held.blocks == 0, std::to_string(held.bytes) + " bytes in " + std::to_string(held.blocks) + " blocks never returned, " + base);
    for (auto const &f : e.feats) count_event("statistic " + f); sig(hash_str(e.name + ops)); sig_stream(t.x); nontrivial(); show(base + " operations " + ops);
}
SCENARIO(failing, N2)
{
    Entry const &e = entry(); std::size_t n = 1 + gen_len(r, 60); Stream t = make_stream(r, n); Cfg cfg(r, n), cfg2(r, n); std::string base = e.name + " {" + cfg.text() + "}"; note(e.name);
    for (int round = 0; round < 12; ++round)
    {
        Meter held; unsigned f0 = hooks::failures; bool threw = false; int what = (int)r.below(5); std::size_t k = r.below(n + 1); Snap keep; keep.reserve(65536);
        {
            std::unique_ptr<AnySet> s, o; std::unique_ptr<AnySet> fresh;
            auto attempt = [&](std::function<void()> const &f) { held([&] { hooks::fail_at = (long)r.below(r.chance(.5) ? 3 : 14); try { f(); } catch (std::bad_alloc const &) { threw = true; } hooks::fail_at = -1; }); };
            if (what == 0) attempt([&] { s.reset(e.make(cfg)); });
            else
            {
                held([&] { s.reset(e.make(cfg)); }); for (std::size_t i = 0; i < k; ++i) held([&] { push(*s, t, i); });
                if (what == 1) attempt([&] { for (std::size_t i = 0; i < 8; ++i) push(*s, t, i % n); });
                else if (what == 2) attempt([&] { for (int f = 0; f < s->features(); ++f) { keep.clear(); s->snap(f, keep, .6 + .3 * r.uni()); } });
                else if (what == 3) attempt([&] { o.reset(s->clone()); });
                else { held([&] { o.reset(e.make(cfg2)); }); for (std::size_t i = 0; i < r.below(n + 1); ++i) held([&] { push(*o, t, i); }); attempt([&] { o->assign(*s); }); }
            }
            // the survivors can still be overwritten and destroyed
            if (s && r.chance(.3)) { held([&] { fresh.reset(e.make(cfg2)); }); if (o && r.chance(.5)) held([&] { o->assign(*fresh); }); else held([&] { s->assign(*fresh); }); }
            held([&] { s.reset(); }); held([&] { o.reset(); }); held([&] { fresh.reset(); });
        }
        static char const *nm[] = {"construction", "push", "extraction", "copy", "assignment"};
        if (threw) count_event(std::string("failed allocations in ") + nm[what], hooks::failures - f0);
        check_true(e.name + ":leak after a failed " + nm[what], held.bytes == 0 && held.blocks == 0, std::to_string(held.bytes) + " bytes in " + std::to_string(held.blocks) + " blocks never returned, " + base);
        sig((std::uint64_t)(what * 2 + threw));
    }
    sig(hash_str(e.name)); sig_stream(t.x); nontrivial(); show(base + ", 12 injected allocation failures");
}
