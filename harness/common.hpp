// Shared scaffolding of the monitors: seeded case scheduler, verdict log,
// coverage accounting, comparison helpers and hostile stream generators.
// A harness is a set of SCENARIOs; each case of a scenario is one monitored
// execution, reproducible from (seed, scenario, case).
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <type_traits>
#include <stdexcept>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

namespace vf {

typedef long double ld;

inline std::uint64_t mix(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline std::uint64_t hash_str(std::string const &s)
{
    std::uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed) {}
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ULL; std::uint64_t z = s; return mix(z); }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + (long)below((std::uint64_t)(hi - lo + 1)); }
    double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }      // [0,1)
    double uni_open() { double u; do u = uni(); while (u == 0.0); return u; }
    bool chance(double p) { return uni() < p; }
    double normal()
    {
        double u1 = uni_open(), u2 = uni();
        return std::sqrt(-2.0 * std::log(u1)) * std::cos(6.283185307179586 * u2);
    }
    template<class T> T const &pick(std::vector<T> const &v) { return v[below(v.size())]; }
};

// ------------------------------------------------------------------ context
struct Progress { char scenario[96]; long kase; char note[512]; };

struct Violation { std::string scenario; long kase; std::string key, msg; };

struct Ctx
{
    std::uint64_t seed = 1;
    std::string tier = "quick";
    double scale = 1;
    long shard = 0, shards = 1;
    std::string out, only;
    long only_case = -1;
    bool verbose = false;
    // current
    std::string scenario; long kase = -1;
    // statistics
    std::uint64_t cases = 0, comparisons = 0, inconclusive = 0;
    std::unordered_set<std::uint64_t> sigs;
    std::map<std::string, std::uint64_t> counters, per_scenario;
    std::vector<std::string> samples;
    std::map<std::string, int> samples_per_scenario;
    std::vector<Violation> violations;
    std::map<std::string, int> viol_per_key;
    Progress *prog = nullptr;
    std::uint64_t case_sig = 0; bool case_nontrivial = false;
    std::uint64_t comparisons_in_case = 0;
};
inline Ctx &ctx() { static Ctx c; return c; }

inline std::string json_escape(std::string const &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

inline void write_out()
{
    Ctx &c = ctx();
    if (c.out.empty()) return;
    std::string tmp = c.out + ".tmp";
    FILE *f = std::fopen(tmp.c_str(), "w");
    if (!f) { std::perror("out"); std::exit(3); }
    std::fprintf(f, "{\"cases\":%llu,\"comparisons\":%llu,\"inconclusive\":%llu,",
        (unsigned long long)c.cases, (unsigned long long)c.comparisons, (unsigned long long)c.inconclusive);
    std::fprintf(f, "\"sigs\":[");
    bool first = true;
    for (auto s : c.sigs) { std::fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)s); first = false; }
    std::fprintf(f, "],\"counters\":{"); first = true;
    for (auto &kv : c.counters) { std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    std::fprintf(f, "},\"per_scenario\":{"); first = true;
    for (auto &kv : c.per_scenario) { std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    std::fprintf(f, "},\"samples\":["); first = true;
    for (auto &s : c.samples) { std::fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str()); first = false; }
    std::fprintf(f, "],\"violations\":["); first = true;
    for (auto &v : c.violations)
    {
        std::fprintf(f, "%s{\"scenario\":\"%s\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",",
            json_escape(v.scenario).c_str(), v.kase, json_escape(v.key).c_str(), json_escape(v.msg).c_str());
        first = false;
    }
    std::fprintf(f, "],\"done\":true}\n");
    std::fclose(f);
    std::rename(tmp.c_str(), c.out.c_str());
}

// record a violation; `key` names what is broken (feature and condition), the
// scenario and case identify the execution
inline void fail(std::string const &key, std::string const &msg)
{
    Ctx &c = ctx();
    if (c.viol_per_key[key]++ < 3)
        c.violations.push_back(Violation{c.scenario, c.kase, key, msg});
    if (c.verbose) std::fprintf(stderr, "FAIL %s case %ld [%s] %s\n", c.scenario.c_str(), c.kase, key.c_str(), msg.c_str());
}
inline void observed() { ++ctx().comparisons; ++ctx().comparisons_in_case; }
inline void count_event(std::string const &name, std::uint64_t n = 1) { ctx().counters[name] += n; }
inline void inconclusive(std::string const &why) { ++ctx().inconclusive; ctx().counters["inconclusive:" + why]++; }
// describe the case for distinctness: any number of words
inline void sig(std::uint64_t v) { ctx().case_sig = mix(ctx().case_sig ^ v); }
inline void sig(double v) { std::uint64_t u; std::memcpy(&u, &v, 8); sig(u); }
inline void nontrivial(bool b = true) { if (b) ctx().case_nontrivial = true; }
inline void note(std::string const &s)
{
    Progress *p = ctx().prog;
    if (p) { std::snprintf(p->note, sizeof p->note, "%s", s.c_str()); }
}
inline void show(std::string const &s)
{
    Ctx &c = ctx();
    if (c.samples_per_scenario[c.scenario]++ < 1) c.samples.push_back(c.scenario + "#" + std::to_string(c.kase) + ": " + s);
}

template<class T> std::string str(T const &v) { std::ostringstream o; o.precision(21); o << v; return o.str(); }
template<class T> std::string str_seq(T const &v, std::size_t maxn = 12)
{
    std::ostringstream o; o.precision(17); o << '['; std::size_t i = 0;
    for (auto const &x : v) { if (i == maxn) { o << ",..."; break; } if (i++) o << ','; o << +x; }
    o << "](n=" << v.size() << ')'; return o.str();
}

inline bool near(ld a, ld e, ld tol)
{
    if (std::isnan(a) || std::isnan(e)) return std::isnan(a) && std::isnan(e);
    if (std::isinf(a) || std::isinf(e)) return a == e;
    ld d = a - e; if (d < 0) d = -d;
    return d <= tol;
}
inline bool check_near(std::string const &key, ld actual, ld expected, ld tol, std::string const &where = "")
{
    observed();
    if (near(actual, expected, tol)) return true;
    fail(key, "got " + str(actual) + " expected " + str(expected) + " +- " + str(tol) + " " + where);
    return false;
}
template<class A, class B>
bool check_eq(std::string const &key, A const &actual, B const &expected, std::string const &where = "")
{
    observed();
    if (actual == expected) return true;
    fail(key, "got " + str(actual) + " expected " + str(expected) + " " + where);
    return false;
}
inline bool check_true(std::string const &key, bool ok, std::string const &where = "")
{
    observed();
    if (ok) return true;
    fail(key, where);
    return false;
}
// identical observable value: same number or both NaN
template<class T> bool same(T const &a, T const &b) { return a == b || (a != a && b != b); }

// ------------------------------------------------------------------ streams
enum Kind { UNIFORM, NORMAL, EXPON, HEAVY, CONST, SORTED, REVERSED, FEW, ALTER, OFFSET, INTS, SAWTOOTH, SPIKE, ZEROS, TINY, NKINDS };
inline char const *kind_name(int k)
{
    static char const *n[] = {"uniform","normal","expon","heavy","const","sorted","reversed","few","alternating","offset","ints","sawtooth","spike","zeros","tiny"};
    return n[k];
}
inline std::vector<double> gen(Rng &r, std::size_t n, int kind, double scale = 1.0)
{
    std::vector<double> v(n);
    double c = r.normal() * 3, off = (r.chance(.5) ? 1 : -1) * (100 + 900 * r.uni());
    std::vector<double> few; for (int i = 0, m = (int)r.range(1, 4); i < m; ++i) few.push_back(std::floor(r.normal() * 8));
    for (std::size_t i = 0; i < n; ++i)
    {
        switch (kind)
        {
        case UNIFORM: case SORTED: case REVERSED: v[i] = r.uni() * 2 - 0.7; break;
        case NORMAL: v[i] = r.normal(); break;
        case EXPON: v[i] = -std::log(r.uni_open()); break;
        case HEAVY: { double u = r.uni_open(); v[i] = (r.chance(.5) ? 1 : -1) * std::pow(u, -1.5); if (v[i] > 1e6) v[i] = 1e6; if (v[i] < -1e6) v[i] = -1e6; break; }
        case CONST: v[i] = c; break;
        case FEW: v[i] = r.pick(few); break;
        case ALTER: v[i] = (i & 1) ? 1000 * r.uni() : -1000 * r.uni(); break;
        case OFFSET: v[i] = off + r.normal(); break;
        case INTS: v[i] = (double)r.range(-50, 50); break;
        case SAWTOOTH: v[i] = (double)(i % 7) + 0.25 * r.uni(); break;
        case SPIKE: v[i] = r.chance(.05) ? 1e4 * r.normal() : r.normal(); break;
        case ZEROS: v[i] = r.chance(.7) ? 0.0 : r.normal(); break;
        case TINY: v[i] = r.normal() * 1e-3; break;
        }
        v[i] *= scale;
    }
    if (kind == SORTED) std::sort(v.begin(), v.end());
    if (kind == REVERSED) std::sort(v.begin(), v.end(), std::greater<double>());
    return v;
}
// a scenario that wants streams past 2^16 samples (few cases, few extractions)
inline bool &long_case() { static bool b = false; return b; }
struct LongCase { LongCase() { long_case() = true; } ~LongCase() { long_case() = false; } };
inline std::size_t long_len(Rng &r) { return r.chance(.3) ? 4000 + r.below(30000) : 65530 + r.below(9000); }
inline std::size_t gen_len(Rng &r, std::size_t big = 2000)
{
    if (long_case()) return long_len(r);
    double u = r.uni();
    if (u < .10) return r.below(4);
    if (u < .45) return r.below(30);
    if (u < .85) return 20 + r.below(200);
    return 200 + r.below(big > 200 ? big - 200 : 1);
}
inline void sig_stream(std::vector<double> const &v) { sig((std::uint64_t)v.size()); for (double x : v) sig(x); }

// Extraction schedules: when are results looked at while pushing?
struct Schedule
{
    int mode; std::size_t n; double p;
    Schedule(Rng &r, std::size_t n_) : mode((int)r.below(4)), n(n_), p(r.uni()) { if (n > 400 && mode == 0) mode = 1; }
    // after the i-th push (1-based)
    bool at(Rng &r, std::size_t i) const
    {
        if (i == n) return true;
        switch (mode)
        {
        case 0: return true;                      // always
        case 1: return r.chance(n > 20000 ? 6.0 / n : n > 100 ? 20.0 / n + .02 * p : p);
        case 2: return false;                     // only at the end
        default: return (i & (i - 1)) == 0 || ((i + 1) & i) == 0;   // around powers of two
        }
    }
};

// ------------------------------------------------------------------ scenarios
struct Scenario { std::string name; double cases; std::function<void(Rng &)> fn; };
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(char const *n, double c, std::function<void(Rng &)> f) { scenarios().push_back(Scenario{n, c, f}); } };
#define SCENARIO(NAME, CASES) \
    static void scen_##NAME(vf::Rng &r); \
    static vf::Reg reg_##NAME(#NAME, CASES, scen_##NAME); \
    static void scen_##NAME(vf::Rng &r)

// CPU-time watchdog for one case: a call that never returns is a violation of
// its own (key "hang"); measured in CPU time so load cannot trigger it.
inline void on_vtalrm(int)
{
    static char const m[] = "\nVERIF-HANG: cpu budget of one case exhausted\n";
    ssize_t w = ::write(2, m, sizeof m - 1); (void)w;
    _exit(97);
}
inline void arm(long secs)
{
    itimerval it; std::memset(&it, 0, sizeof it); it.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

inline int main_(int argc, char **argv)
{
    Ctx &c = ctx();
    std::string progress; std::set<std::string> skip; long budget = 60;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--seed") c.seed = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") c.tier = val();
        else if (a == "--scale") c.scale = std::atof(val().c_str());
        else if (a == "--shard") c.shard = std::atol(val().c_str());
        else if (a == "--shards") c.shards = std::atol(val().c_str());
        else if (a == "--out") c.out = val();
        else if (a == "--scenario") c.only = val();
        else if (a == "--case") c.only_case = std::atol(val().c_str());
        else if (a == "--progress") progress = val();
        else if (a == "--skip") skip.insert(val());
        else if (a == "--budget") budget = std::atol(val().c_str());
        else if (a == "-v") c.verbose = true;
        else if (a == "--list") { for (auto &s : scenarios()) std::printf("%s %g\n", s.name.c_str(), s.cases); return 0; }
        else { std::fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    if (!progress.empty())
    {
        int fd = ::open(progress.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Progress))) { std::perror("progress"); return 2; }
        c.prog = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
    }
    std::signal(SIGVTALRM, on_vtalrm);
    std::stable_sort(scenarios().begin(), scenarios().end(), [](Scenario const &a, Scenario const &b) { return a.name < b.name; });
    for (auto &s : scenarios())
    {
        if (!c.only.empty() && s.name != c.only) continue;
        long total = (long)std::ceil(s.cases * c.scale);
        if (s.cases == 1) total = 1;
        for (long k = 0; k < total; ++k)
        {
            if (c.only_case >= 0) { k = c.only_case; total = k + 1; }
            else if (k % c.shards != c.shard) continue;
            if (skip.count(s.name + ":" + std::to_string(k)) || skip.count(s.name)) continue;
            c.scenario = s.name; c.kase = k; c.case_sig = hash_str(s.name); c.case_nontrivial = false; c.comparisons_in_case = 0;
            if (c.prog) { std::snprintf(c.prog->scenario, sizeof c.prog->scenario, "%s", s.name.c_str()); c.prog->kase = k; c.prog->note[0] = 0; }
            Rng r(mix(c.seed) ^ mix(hash_str(s.name) + (std::uint64_t)k * 0x9e3779b97f4a7c15ULL));
            arm(budget);
            try { s.fn(r); }
            catch (std::exception const &e) { fail(s.name + ":exception", std::string("unexpected exception: ") + e.what()); }
            ++c.cases; c.per_scenario[s.name]++;
            if (c.case_nontrivial && c.comparisons_in_case > 0) c.sigs.insert(c.case_sig);
        }
    }
    arm(0);
    write_out();
    return 0;
}
} // namespace vf
#endif
