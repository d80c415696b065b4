// C23: the numeric function objects against the plain operators, component by component, for every pair of operand types.
#include <vector>
#include <valarray>
#include <complex>
#include <boost/accumulators/numeric/functional/vector.hpp>
#include <boost/accumulators/numeric/functional/valarray.hpp>
#include <boost/accumulators/numeric/functional/complex.hpp>
#include <boost/accumulators/numeric/functional.hpp>
#include "common.hpp"
using namespace vf;
namespace num = boost::numeric;
template<class T> struct nm; 
#define NM(T, S) template<> struct nm<T> { static char const *s() { return S; } };
NM(bool, "bool") NM(char, "char") NM(signed char, "schar") NM(unsigned char, "uchar") NM(short, "short") NM(unsigned short, "ushort") NM(int, "int") NM(unsigned, "uint") NM(long, "long") NM(unsigned long, "ulong") NM(long long, "llong") NM(float, "float") NM(double, "double") NM(long double, "ldouble")
template<class T> static T value(Rng &r)
{
    if constexpr (std::is_same<T, bool>::value) return r.chance(.5);
    else if constexpr (std::is_floating_point<T>::value)
    {
        switch (r.below(8)) { case 0: return (T)0; case 1: return (T)-1; case 2: return (T)r.range(-9, 9); case 3: return (T)(r.normal() * 1e-20); case 4: return (T)(r.normal() * 1e15); case 5: return (T)r.range(-100000, 100000) / 8; default: return (T)r.normal(); }
    }
    else if constexpr (std::is_unsigned<T>::value) { switch (r.below(6)) { case 0: return (T)0; case 1: return sizeof(T) < sizeof(int) ? (T)std::min<unsigned long>((std::numeric_limits<T>::max)(), 46340) : (std::numeric_limits<T>::max)(); case 2: return sizeof(T) < sizeof(int) ? (T)(r.next() % 46341) : (T)r.next(); default: return (T)r.below(100); } }
    else { switch (r.below(6)) { case 0: return (T)0; case 1: return (T)-1; case 2: return (T)r.range(-127, 127); default: return (T)r.range(-30, 30); } }
}
// the conversion A -> B has defined behaviour
template<class B, class A> static bool castable(A a) { if constexpr (std::is_floating_point<A>::value && std::is_integral<B>::value) return a > (long double)std::numeric_limits<B>::lowest() - 1 && a < (long double)(std::numeric_limits<B>::max)(); else return true; }
template<class T> static bool is_nil(T const &v) { return v == T(); }
template<class A, class B> static bool same_value(A const &a, B const &b) { static_assert(std::is_same<A, B>::value, "type"); return a == b || (a != a && b != b); }
template<class T> static std::string s(T const &v) { return str(+v); }
template<class T> static std::string s(std::complex<T> const &v) { return str(v); }
// judge one result: same value, and the type the plain operator has
template<class G, class W> static void judge(char const *op, std::string const &types, G const &got, W const &want, std::string const &where)
{
    observed();
    if constexpr (std::is_same<G, W>::value) { if (!same_value(got, want)) fail(std::string(op) + ":" + types, "got " + s(got) + ", the plain operator gives " + s(want) + " for " + where); }
    else fail(std::string(op) + ":" + types + ":type", "the result type is not that of the plain operator");
}
template<class T> static void judge_unary(std::string const &types, T a)
{
    T const ca = a; std::string wh = s(a); judge("unary_plus", types, num::unary_plus(ca), +ca, wh); judge("unary_minus", types, num::unary_minus(a), -a, wh); judge("logical_not", types, num::logical_not(a), !a, wh);
    if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) judge("complement", types, num::complement(ca), ~ca, wh);
    typedef std::numeric_limits<T> L;
    judge("as_min", types, num::as_min(a), L::lowest(), wh); judge("as_min const", types, num::as_min(ca), L::lowest(), wh); judge("as_max", types, num::as_max(ca), (L::max)(), wh); judge("as_max nc", types, num::as_max(a), (L::max)(), wh);
    judge("as_zero", types, num::as_zero(a), T(0), wh); judge("as_one", types, num::as_one(ca), T(1), wh); judge("one", types, T(num::one<T>::value), T(1), wh); judge("zero", types, T(num::zero<T>::value), T(0), wh); judge("default", types, T(num::default_<T>::value), T(), wh);
    T const &o = num::one<T>(); judge("one()", types, T(o), T(1), wh); judge("one_or_default", types, T(num::one_or_default<T>::value), T(1), wh); judge("zero_or_default", types, T(num::zero_or_default<T>::value), T(0), wh);
    judge("promote same", types, T(num::promote<T>(a)), a, wh); judge("promote same const", types, T(num::promote<T>(ca)), ca, wh); judge("promote const same", types, T(num::promote<T const>(ca)), ca, wh);
    static_assert(std::is_same<typename num::functional::as_min<T>::result_type, T>::value, "");
}
template<class A, class B> static void judge_pair(std::string const &types, A a, B b)
{
    A const ca = a; B const cb = b; std::string wh = s(a) + " and " + s(b);
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wsign-compare"
    judge("plus", types, num::plus(a, b), a + b, wh); judge("plus const", types, num::plus(ca, cb), a + b, wh); judge("minus", types, num::minus(ca, b), a - b, wh); judge("multiplies", types, num::multiplies(a, cb), a * b, wh);
    if (!(std::is_integral<A>::value && std::is_integral<B>::value && is_nil(b)) && !is_nil(b)) judge("divides", types, num::divides(a, cb), a / b, wh);
    judge("greater", types, num::greater(a, b), a > b, wh); judge("greater_equal", types, num::greater_equal(ca, b), a >= b, wh); judge("less", types, num::less(a, cb), a < b, wh); judge("less_equal", types, num::less_equal(ca, cb), a <= b, wh);
    judge("equal_to", types, num::equal_to(a, b), a == b, wh); judge("not_equal_to", types, num::not_equal_to(ca, cb), a != b, wh);
    if constexpr (std::is_integral<A>::value && std::is_integral<B>::value)
    {
        if (!is_nil(b)) { judge("modulus", types, num::modulus(a, b), a % b, wh); judge("fdiv", types, num::fdiv(a, b), double(a) / double(b), wh); judge("fdiv const", types, num::fdiv(ca, cb), double(a) / double(b), wh); judge("average", types, num::average(ca, b), double(a) / double(b), wh); }
    }
    else if (!is_nil(b)) { judge("fdiv", types, num::fdiv(a, b), a / b, wh); judge("average", types, num::average(ca, cb), a / b, wh); }
    // assignments, where they lose nothing
    if constexpr (!std::is_same<A, bool>::value && !std::is_same<B, bool>::value && (std::is_floating_point<A>::value || std::is_integral<B>::value))
    {
        if (std::is_floating_point<A>::value || sizeof(B) <= sizeof(A))
        {
            A x = a, y = a; num::plus_assign(x, b); y += b; judge("plus_assign", types, x, y, wh); x = y = a; num::minus_assign(x, cb); y -= b; judge("minus_assign", types, x, y, wh); x = y = a; num::multiplies_assign(x, b); y *= b; judge("multiplies_assign", types, x, y, wh);
            if (!is_nil(b)) { x = y = a; num::divides_assign(x, cb); y /= b; judge("divides_assign", types, x, y, wh); }
            x = y = a; A &ref = num::plus_assign(x, b); check_true(std::string("plus_assign:") + types + ":reference", &ref == &x, "does not return its left operand");
            if constexpr (std::is_integral<A>::value && std::is_integral<B>::value) if (!is_nil(b)) { x = y = a; num::modulus_assign(x, b); y %= b; judge("modulus_assign", types, x, y, wh); }
        }
        A z = a, q; num::assign(z, b); q = b; judge("assign", types, z, q, wh);
    }
    { A x = a, y = a; num::min_assign(x, cb); if (b < y) y = b; judge("min_assign", types, x, y, wh); x = y = a; num::max_assign(x, b); if (b > y) y = b; judge("max_assign", types, x, y, wh); }
    if constexpr (!std::is_same<A, B>::value) if (castable<B>(ca)) { B const v = num::promote<B>(ca); judge("promote", types, B(v), B(ca), wh); judge("promote nc", types, B(num::promote<B>(a)), B(a), wh); }
#pragma GCC diagnostic pop
}
template<class A, class B> static bool can_cast(A a) { if constexpr (std::is_floating_point<A>::value && std::is_integral<B>::value) return a >= 0 && a < 100; else return (void)a, true; }
template<class A, class B> static void scalars(Rng &r, int rounds)
{
    std::string types = std::string(nm<A>::s()) + "," + nm<B>::s();
    for (int i = 0; i < rounds; ++i)
    {
        A a = value<A>(r); B b = value<B>(r); if (r.chance(.15)) { a = (A)r.below(100); b = (B)a; } if (!can_cast<A, B>(a)) a = (A)r.below(100);
        sig((double)a); sig((double)b); judge_pair(types, a, b); if constexpr (std::is_same<A, B>::value) judge_unary(types, a);
        count_event("operand pairs");
    }
}
template<class A, class... B> static void row(Rng &r, int rounds) { (scalars<A, B>(r, rounds), ...); }
// one source, nine translation units
#define VEC (PART == 3 || PART == 8)
#define VAL (PART == 4 || PART == 9)
#if PART == 1 || PART == 6
#define ALL bool, char, short, unsigned short, int, unsigned, long, unsigned long
#define FLT float, double, long double
#if PART == 1
SCENARIO(scalar_small, 120) { row<bool, ALL, FLT>(r, 8); row<char, ALL, FLT>(r, 8); row<short, ALL, FLT>(r, 8); row<signed char, signed char, int, double>(r, 8); row<unsigned char, unsigned char, int, double>(r, 8); nontrivial(); }
#endif
#if PART == 6
SCENARIO(scalar_int, 120) { row<int, ALL, FLT>(r, 8); row<unsigned, ALL, FLT>(r, 8); row<unsigned short, ALL, FLT>(r, 8); nontrivial(); }
#endif
#elif PART == 2 || PART == 7
#define ALL bool, char, short, unsigned short, int, unsigned, long, unsigned long
#define FLT float, double, long double
#if PART == 2
SCENARIO(scalar_long, 120) { row<long, ALL, FLT>(r, 8); row<unsigned long, ALL, FLT>(r, 8); row<long long, long long, int, double>(r, 8); nontrivial(); }
#endif
#if PART == 7
SCENARIO(scalar_float, 120) { row<float, ALL, FLT>(r, 8); row<double, ALL, FLT>(r, 8); row<long double, ALL, FLT>(r, 8); nontrivial(); }
#endif
#elif VEC || VAL
// ------------------------------------------------------------------ sequences
template<class C> static std::string text(C const &c) { std::ostringstream o; o.precision(17); o << "["; for (std::size_t i = 0; i < c.size(); ++i) o << (i ? "," : "") << +c[i]; o << "]"; return o.str(); }
// compare a sequence with the component-wise expectation f(i)
template<class Seq, class F> static void judge_seq(char const *op, std::string const &types, Seq const &got, std::size_t n, F f, std::string const &where)
{
    typedef typename std::decay<decltype(got[0])>::type G; typedef decltype(f(0)) W; observed();
    if (!std::is_same<G, W>::value) { fail(std::string(op) + ":" + types + ":type", "the component type is not that of the plain operator"); return; }
    if (got.size() != n) { fail(std::string(op) + ":" + types + ":size", "size " + std::to_string(got.size()) + " for operands of size " + std::to_string(n) + where); return; }
    for (std::size_t i = 0; i < n; ++i) if (!(got[i] == f(i))) { fail(std::string(op) + ":" + types, "component " + std::to_string(i) + " is " + s(got[i]) + ", the plain operator gives " + s(f(i)) + " for " + where); return; }
}
template<template<class...> class C, class T> static C<T> make(Rng &r, std::size_t n, bool nozero) { C<T> v(n); for (std::size_t i = 0; i < n; ++i) { T x = value<T>(r); while (nozero && is_nil(x)) x = value<T>(r); v[i] = x; } return v; }
#define OP(NAME, EXPR, WANT) judge_seq(NAME, types, EXPR, n, [&](std::size_t i) { return WANT; }, wh)
#if VEC
template<class T> using Seq = std::vector<T>;
static char const *const WHAT = "vector<";
template<class... T> using Cont = std::vector<T...>;
#else
template<class T> using Seq = std::valarray<T>;
static char const *const WHAT = "valarray<";
template<class... T> using Cont = std::valarray<T...>;
#endif
template<class A, class B> static void seqs(Rng &r, int rounds)
{
    namespace ops = boost::numeric::operators; std::string types = std::string(WHAT) + nm<A>::s() + ">," + WHAT + nm<B>::s() + ">";
    for (int q = 0; q < rounds; ++q)
    {
        std::size_t n = r.below(7); Seq<A> a = make<Cont, A>(r, n, false), a2 = make<Cont, A>(r, n, false); Seq<B> b = make<Cont, B>(r, n, true); Seq<A> const ca = a; Seq<B> const cb = b; std::string wh = text(a) + " and " + text(b);
        for (std::size_t i = 0; i < n; ++i) { sig((double)a[i]); sig((double)b[i]); }
        {
            Seq<B> z = make<Cont, B>(r, n, false); Seq<B> const cz = z; std::string const wh = text(a) + " and " + text(z);        // components of any value, zero included
            OP("plus with any", num::plus(a, cz), a[i] + z[i]); if constexpr (VEC || std::is_same<A, B>::value) { OP("minus with any", num::minus(ca, z), a[i] - z[i]); OP("multiplies with any", num::multiplies(a, z), a[i] * z[i]); }
        }
        OP("plus", num::plus(a, b), a[i] + b[i]); OP("plus const", num::plus(ca, cb), a[i] + b[i]);
        if constexpr (VEC || std::is_same<A, B>::value) { OP("minus", num::minus(ca, b), a[i] - b[i]); OP("multiplies", num::multiplies(a, cb), a[i] * b[i]); OP("divides", num::divides(ca, cb), a[i] / b[i]); }
        if constexpr (VAL && std::is_same<A, B>::value && std::is_integral<A>::value) OP("modulus", num::modulus(ca, cb), a[i] % b[i]);
        {
            using namespace boost::numeric::operators; 
            if constexpr (VEC) { OP("operator +", a + b, a[i] + b[i]); OP("operator -", ca - cb, a[i] - b[i]); OP("operator *", a * cb, a[i] * b[i]); OP("operator /", ca / b, a[i] / b[i]); OP("operator unary -", -ca, -a[i]); }
        }
        if constexpr (VEC) OP("unary_minus", num::unary_minus(a), -a[i]);
        if constexpr (std::is_same<A, B>::value)
        {
            Seq<A> x = a; Seq<A> &ref = num::plus_assign(x, b); OP("plus_assign", x, A(a[i] + b[i])); check_true("plus_assign:" + types + ":reference", &ref == &x, "does not return its left operand"); x = a; num::plus_assign(x, cb); OP("plus_assign const", x, A(a[i] + b[i]));
            x = a; num::min_assign(x, a2); OP("min_assign with any", x, a2[i] < a[i] ? a2[i] : a[i]); x = a; num::max_assign(x, a2); OP("max_assign with any", x, a2[i] > a[i] ? a2[i] : a[i]); x = a; num::plus_assign(x, a2); OP("plus_assign with any", x, A(a[i] + a2[i])); if constexpr (VAL) { x = a; num::minus_assign(x, a2); OP("minus_assign with any", x, A(a[i] - a2[i])); }
            x = a; num::min_assign(x, b); OP("min_assign", x, b[i] < a[i] ? b[i] : a[i]); x = a; num::max_assign(x, cb); OP("max_assign", x, cb[i] > ca[i] ? cb[i] : ca[i]); x = a2; num::assign(x, a); OP("assign", x, a[i]);
            x = a; num::max_assign(x, x); OP("max_assign self", x, a[i]); x = a; num::min_assign(x, a2); num::max_assign(x, a2); OP("min then max", x, a2[i] > (a2[i] < a[i] ? a2[i] : a[i]) ? a2[i] : (a2[i] < a[i] ? a2[i] : a[i]));
            typedef std::numeric_limits<A> L; Seq<A> k = num::as_min(a); OP("as_min", k, L::lowest()); Seq<A> k2 = num::as_min(ca); OP("as_min const", k2, L::lowest()); Seq<A> k3 = num::as_max(ca); OP("as_max", k3, (L::max)()); Seq<A> k4 = num::as_zero(a); OP("as_zero", k4, A(0)); Seq<A> k5 = num::as_one(ca); OP("as_one", k5, A(1));
            OP("promote same", Seq<A>(num::promote<Seq<A> >(a)), a[i]); OP("promote same const", Seq<A>(num::promote<Seq<A> >(ca)), a[i]);
        }
        bool castable = true; for (std::size_t i = 0; i < n; ++i) castable &= can_cast<A, B>(a[i]);
        if (castable) { Seq<B> p = num::promote<Seq<B> >(a); OP("promote", p, B(a[i])); Seq<B> p2 = num::promote<Seq<B> >(ca); OP("promote const", p2, B(a[i])); }
        if constexpr (VAL && std::is_same<A, B>::value)
        {
            // expressions of the standard library as operands
            OP("plus of an expression", num::plus(a + a2, b), A(a[i] + a2[i]) + b[i]); OP("minus of an expression", num::minus(b, a - a2), b[i] - A(a[i] - a2[i])); 
            Seq<A> e = a; bool all = true; for (std::size_t i = 0; i < n; ++i) all &= e[i] == a2[i]; check_eq("promote<bool> of ==:" + types, num::promote<bool>(e == a2), all, wh); check_eq("promote<bool> of == with itself:" + types, num::promote<bool>(e == a), true, wh);
            if (n) { Seq<A> d = a; std::size_t at = r.below(n); d[at] = (A)(d[at] == A(1) ? A(2) : A(1)); check_eq("promote<bool> of == with one difference:" + types, num::promote<bool>(d == a), false, wh); }
        }
        count_event("sequence pairs"); count_event("dimension " + std::to_string(n));
    }
}
template<class A, class B> static void seq_scalar(Rng &r, int rounds)
{
    std::string types = std::string(WHAT) + nm<A>::s() + ">," + nm<B>::s();
    for (int q = 0; q < rounds; ++q)
    {
        std::size_t n = r.below(7); Seq<A> a = make<Cont, A>(r, n, false); Seq<A> const ca = a; B b = value<B>(r); while (is_nil(b)) b = value<B>(r); B const cb = b; std::string wh = text(a) + " and " + s(b);
        for (std::size_t i = 0; i < n; ++i) sig((double)a[i]); sig((double)b);
        if (r.chance(.3)) { B const b = B(0); std::string const wh = text(a) + " and zero"; OP("multiplies by zero", num::multiplies(a, b), a[i] * b); if constexpr (VEC) OP("zero times", num::multiplies(b, ca), b * a[i]); }
        OP("multiplies", num::multiplies(a, b), a[i] * b); OP("multiplies const", num::multiplies(ca, cb), a[i] * b); OP("divides", num::divides(a, cb), a[i] / b); OP("divides const", num::divides(ca, b), a[i] / b);
        if constexpr (VEC) OP("multiplies left", num::multiplies(b, a), b * a[i]); else if constexpr (std::is_same<A, B>::value) OP("multiplies left", num::multiplies(b, ca), b * a[i]);
        if constexpr (std::is_integral<A>::value && std::is_integral<B>::value) { OP("fdiv", num::fdiv(a, b), double(a[i]) / double(b)); OP("fdiv const", num::fdiv(ca, cb), double(a[i]) / double(b)); OP("average", num::average(ca, b), double(a[i]) / double(b)); }
        else { OP("fdiv", num::fdiv(a, b), a[i] / b); OP("fdiv const", num::fdiv(ca, cb), a[i] / b); OP("average", num::average(ca, b), a[i] / b); }
        if constexpr (VEC) { using namespace boost::numeric::operators; OP("operator *", a * b, a[i] * b); OP("operator /", ca / cb, a[i] / b); OP("operator * left", cb * ca, b * a[i]); }
        count_event("sequence and scalar pairs");
    }
}
template<class A, class... B> static void seq_row(Rng &r) { (seqs<A, B>(r, 8), ...); }
template<class A, class... B> static void sca_row(Rng &r) { (seq_scalar<A, B>(r, 8), ...); }
#if PART == 3 || PART == 4
SCENARIO(sequences, 150)
{
#if VEC
    seq_row<int, int, double, unsigned, long, short>(r); seq_row<double, int, double, float, unsigned long>(r); seq_row<float, float, double, int>(r); seq_row<short, short, int>(r); seq_row<long double, double, long double>(r); seq_row<unsigned long, unsigned long, double>(r);
    seq_row<char, char, int>(r); seq_row<unsigned, unsigned, int>(r);
#else
    seq_row<int, int, double, long>(r); seq_row<double, int, double, float>(r); seq_row<float, float, double>(r); seq_row<long double, double, long double>(r); seq_row<unsigned long, unsigned long, double>(r); seq_row<unsigned, unsigned>(r); seq_row<long, long>(r);
#endif
    nontrivial();
}
#else
SCENARIO(sequence_scalar, 150)
{
#if VEC
    sca_row<int, int, double, unsigned, unsigned long, short>(r); sca_row<short, short, unsigned long, double, int>(r); sca_row<char, int, unsigned long>(r);
#else
    sca_row<int, int, double, unsigned, unsigned long>(r);
#endif
    sca_row<double, int, double, float, unsigned long, long double>(r); sca_row<float, int, double, float, unsigned long>(r); sca_row<unsigned, unsigned, unsigned long, double>(r); sca_row<long double, long double, int>(r); sca_row<unsigned long, unsigned long, double, int>(r); nontrivial();
}
#endif
#elif PART == 5
// ------------------------------------------------------------------ complex
template<class T, class U> static void with_scalar(Rng &r, int rounds)
{
    typedef std::complex<T> C; std::string types = std::string("complex<") + nm<T>::s() + ">," + nm<U>::s(); namespace ops = boost::numeric::operators;
    for (int q = 0; q < rounds; ++q)
    {
        C a(value<T>(r), value<T>(r)); U u = value<U>(r); while (is_nil(u)) u = value<U>(r); C const ca = a; U const cu = u; std::string wh = str(a) + " and " + s(u); sig((double)a.real()); sig((double)a.imag()); sig((double)u);
        C m(a.real() * T(u), a.imag() * T(u)), d(a.real() / T(u), a.imag() / T(u));
        judge("multiplies", types, num::multiplies(a, u), m, wh); judge("multiplies const", types, num::multiplies(ca, cu), m, wh); judge("divides", types, num::divides(ca, u), d, wh); judge("fdiv", types, num::fdiv(a, cu), d, wh); judge("fdiv const", types, num::fdiv(ca, cu), d, wh);
        count_event("complex operand pairs");
    }
}
template<class T> static void plain(Rng &r, int rounds)
{
    typedef std::complex<T> C; std::string types = std::string("complex<") + nm<T>::s() + ">";
    for (int q = 0; q < rounds; ++q)
    {
        C a(value<T>(r), value<T>(r)), b(value<T>(r), value<T>(r)); std::string wh = str(a) + " and " + str(b); C const ca = a; sig((double)a.real()); sig((double)b.imag());
        judge("plus", types, num::plus(a, b), a + b, wh); judge("minus", types, num::minus(ca, b), a - b, wh); judge("multiplies", types, num::multiplies(ca, b), a * b, wh); if (b != C()) judge("divides", types, num::divides(ca, b), a / b, wh); judge("unary_minus", types, num::unary_minus(ca), -a, wh);
        check_eq("equal_to:" + types, num::equal_to(a, b), a == b, wh); check_eq("not_equal_to:" + types, num::not_equal_to(a, ca), false, wh);
        C x = a, y = a; num::plus_assign(x, b); y += b; judge("plus_assign", types, x, y, wh); x = y = a; num::multiplies_assign(x, b); y *= b; judge("multiplies_assign", types, x, y, wh); num::assign(x, b); judge("assign", types, x, b, wh);
        judge("as_zero", types, num::as_zero(a), C(), wh); judge("as_one", types, num::as_one(ca), C(1), wh); judge("one", types, C(num::one<C>::value), C(1), wh); C const &o = num::one<C>(); judge("one()", types, C(o), C(1), wh); judge("zero", types, C(num::zero<C>::value), C(), wh);
        judge("one is the identity", types, num::multiplies(a, C(num::one<C>::value)), a * C(1), wh); judge("promote same", types, C(num::promote<C>(ca)), a, wh);
    }
}
SCENARIO(complex_scalar, 150) { with_scalar<double, int>(r, 8); with_scalar<double, unsigned long>(r, 8); with_scalar<double, float>(r, 8); with_scalar<float, int>(r, 8); with_scalar<float, unsigned long>(r, 8); with_scalar<float, double>(r, 8); with_scalar<long double, int>(r, 8); with_scalar<long double, double>(r, 8); with_scalar<double, double>(r, 8); with_scalar<float, float>(r, 8); nontrivial(); }
SCENARIO(complex_plain, 150) { plain<double>(r, 8); plain<float>(r, 8); plain<long double>(r, 8); nontrivial(); }
#endif
