// Independent reference statistics, recomputed from the recorded history in
// 80-bit arithmetic, together with rounding allowances that accept any
// reasonable evaluation order of the documented formulas.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include "common.hpp"
namespace vf {
struct Moments
{
    std::size_t n = 0; ld W = 0, sum = 0, sumabs = 0, mean = 0, A = 0, mn = 0, mx = 0;
    ld raw[7] = {0}, central[5] = {0};       // raw[k] = E x^k, central[k] = E (x-mean)^k, weighted
    ld wmax = 0;
    template<class V, class W_> Moments(V const &v, std::size_t n_, W_ const &w) : n(n_)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            ld x = v[i], wi = w(i);
            W += wi; sum += wi * x; sumabs += wi * std::fabs(x); A = std::max(A, (ld)std::fabs(x)); wmax = std::max(wmax, wi);
            if (i == 0 || x < mn) mn = x;
            if (i == 0 || x > mx) mx = x;
        }
        if (n == 0 || W == 0) return;
        mean = sum / W;
        for (std::size_t i = 0; i < n; ++i)
        {
            ld x = v[i], wi = w(i), p = 1, d = x - mean, q = 1;
            for (int k = 1; k <= 6; ++k) { p *= x; raw[k] += wi * p; if (k <= 4) { q *= d; central[k] += wi * q; } }
        }
        for (int k = 1; k <= 6; ++k) raw[k] /= W;
        for (int k = 1; k <= 4; ++k) central[k] /= W;
    }
    ld var() const { return central[2]; }
};
template<class V> Moments moments(V const &v, std::size_t n) { return Moments(v, n, [](std::size_t) { return (ld)1; }); }
template<class V, class W> Moments wmoments(V const &v, W const &w, std::size_t n) { return Moments(v, n, [&](std::size_t i) { return (ld)w[i]; }); }

inline ld powl_i(ld x, int k) { ld p = 1; while (k--) p *= x; return p; }

// allowances, eps = epsilon of the type the library computes in
inline ld tol_sum(Moments const &m, ld eps) { return (m.n + 2) * eps * m.sumabs; }
inline ld tol_mean(Moments const &m, ld eps) { return 6 * (m.n + 4) * eps * m.A; }
inline ld tol_moment(Moments const &m, int k, ld eps) { return 2 * (m.n + 2 * k + 4) * eps * powl_i(m.A, k); }
inline ld tol_var(Moments const &m, ld eps) { return 16 * (m.n + 8) * eps * m.A * m.A; }
inline void check_var(std::string const &key, ld got, Moments const &m, ld eps, std::string const &where)
{
    check_near(key, got, m.var(), tol_var(m, eps), where);
}
inline void check_skew(std::string const &key, ld got, Moments const &m, ld eps, std::string const &where)
{
    ld v = m.var(), dv = tol_var(m, eps);
    if (!(v > 0) || dv / v > 0.01L) { inconclusive("ill-conditioned"); return; }
    ld g = m.central[3] / (v * std::sqrt(v));
    ld tol = 12 * (m.n + 8) * eps * powl_i(m.A, 3) / (v * std::sqrt(v)) * 1.1L + std::fabs(g) * 3 * dv / v + 16 * eps * std::fabs(g);
    check_near(key, got, g, tol, where);
}
inline void check_kurt(std::string const &key, ld got, Moments const &m, ld eps, std::string const &where)
{
    ld v = m.var(), dv = tol_var(m, eps);
    if (!(v > 0) || dv / v > 0.01L) { inconclusive("ill-conditioned"); return; }
    ld k = m.central[4] / (v * v);
    ld tol = 28 * (m.n + 8) * eps * powl_i(m.A, 4) / (v * v) * 1.1L + std::fabs(k) * 4 * dv / v + 16 * eps * (std::fabs(k) + 3);
    check_near(key, got, k - 3, tol, where);
}
inline void check_err_mean(std::string const &key, ld got, Moments const &m, ld eps, std::string const &where)
{
    ld dv = tol_var(m, eps), v = m.var();
    if (m.n < 2) { check_true(key + ":undefined", !(got == got) || std::isinf(got) || got >= 0, where + " got " + str(got)); return; }
    if (v <= 4 * dv) { check_true(key + ":tiny", !(got == got) || (got >= 0 && got * got * (m.n - 1) <= v + 2 * dv), where + " got " + str(got)); return; }
    ld e = std::sqrt(v / (m.n - 1));
    check_near(key, got, e, e * (dv / v + 8 * eps), where);
}
}
#endif
