// C24: what a set holds is bounded by its construction arguments, never by the number of samples.
#include "anyset.hpp"
#include "hooks.hpp"
using namespace vf; using namespace any;
static Entry const &entry() { sort_entries(); auto const &e = entries(); return e[(std::size_t)(ctx().kase % (long)e.size())]; }
SCENARIO(bounded, 800)
{
    Entry const &e = entry(); std::size_t const settle = 160; Cfg cfg(r, r.chance(.2) ? 60 : 12); std::size_t n = settle + 40 + (std::size_t)r.below(ctx().tier == "thorough" && r.chance(.2) ? 60000 : r.chance(.25) ? 6000 : 1500);
    Stream t = make_stream(r, 1 + n % 3000); double look = r.chance(.3) ? 0 : r.chance(.5) ? .02 : r.uni(); bool full = r.chance(.2); if (full && n > 900) n = 900; std::string base = " " + e.name + " {" + cfg.text() + "} " + kind_name(t.kind) + " " + std::to_string(n) + " samples";
    // what the arguments (and one sample) entitle the set to
    std::size_t units = cfg.win + cfg.rcache + cfg.lcache + cfg.bins + cfg.dcache + cfg.cells + cfg.probs.size() + 32; long cap = (long)(units * 200 * (1 + e.feats.size())) + 65536;
    Meter held;
    long peak = 0, slack = 1024 + 8 * (long)units;        // storage of a result first extracted later, container chunks
    {
        std::unique_ptr<AnySet> s, other; held([&] { s.reset(e.make(cfg)); }); Snap keep; keep.reserve(65536);
        for (std::size_t i = 0; i < n; ++i)
        {
            std::size_t j = i % t.size(); held([&] { push(*s, t, j); });
            if (full || r.chance(look)) { keep.clear(); double p = .6 + .3 * r.uni(); held([&] { for (int f = 0; f < s->features(); ++f) s->snap(f, keep, p); }); count_event("extractions"); }
            if (i == 40 || i == settle / 2 || i == settle - 2) for (int q = 0; q < 8; ++q) { keep.clear(); double p = .99 - .06 * q; held([&] { for (int f = 0; f < s->features(); ++f) s->snap(f, keep, p); }); }
            observed(); long last = held.bytes;
            if (i < settle) peak = std::max(peak, last);
            else if (last > peak + slack) { fail(e.name + ":grows", "holds " + std::to_string(last) + " bytes after " + std::to_string(i + 1) + " samples, at most " + std::to_string(peak) + " in the first " + std::to_string(settle) + base); break; }
            if (i == settle / 2 || i == n - 1) check_true(e.name + ":bound by arguments", last <= cap, "holds " + std::to_string(last) + " bytes, allowance " + std::to_string(cap) + base);
        }
        // copies cost no more again, assigning over and over costs nothing more
        long copy = held([&] { other.reset(s->clone()); }); check_true(e.name + ":copy size", copy <= cap, "a copy holds " + std::to_string(copy) + base);
        for (int i = 0; i < 6; ++i) held([&] { push(*s, t, (std::size_t)i % t.size()); other->assign(*s); });
        long more = 0; for (int i = 0; i < 30; ++i) more += held([&] { push(*s, t, (std::size_t)i % t.size()); other->assign(*s); });
        check_true(e.name + ":assignment grows", more <= 0, "grew by " + std::to_string(more) + " bytes over 30 assignments" + base);
        if (r.chance(.5)) s.swap(other);
        held([&] { s.reset(); }); held([&] { other.reset(); });
    }
    check_true(e.name + ":returned", held.bytes == 0 && held.blocks == 0, std::to_string(held.bytes) + " bytes in " + std::to_string(held.blocks) + " blocks left after destruction" + base);
    for (auto const &f : e.feats) count_event("statistic " + f); count_event("samples pushed", n); sig(hash_str(e.name)); sig_stream(t.x); sig((std::uint64_t)n); nontrivial(); show(base + ", settled peak " + std::to_string(peak) + " bytes");
}
