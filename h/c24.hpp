#pragma once
// C24: the numeric function objects mean the infix operators, for every operand.
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#include <complex>
#include <valarray>
#include <vector>
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
namespace numeric = boost::numeric;

namespace {
template<class T> bool same(T a, T b) { return a == b || (a != a && b != b); }
template<class T> bool same(std::complex<T> a, std::complex<T> b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
template<class T> std::string show(T const &v) { return mc::str(v); }
inline std::string show(char v) { return mc::str((int)v); }
inline std::string show(unsigned char v) { return mc::str((int)v); }
template<class T> std::string show(std::complex<T> const &v) { return "(" + mc::str(v.real()) + "," + mc::str(v.imag()) + ")"; }
template<class T> std::string show(std::vector<T> const &v) { std::string s = "["; for (auto const &e : v) s += " " + show((T)e); return s + " ]"; }
template<class T> std::string show(std::valarray<T> const &v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) s += " " + show(v[i]); return s + " ]"; }
template<class T> bool same(std::vector<T> const &a, std::vector<T> const &b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
template<class T> bool same(std::valarray<T> const &a, std::valarray<T> const &b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!same((T)a[i], (T)b[i])) return false; return true; }
template<class T> void look(T const &v) { std::string const s = show(v); mc::hash_bytes(s.data(), s.size()); }

template<class G, class W> struct same_value {
    static void go(char const *what, G const &, W const &) { mc::fail("%s: a value of another type than expected", what); }
};
template<class T> struct same_value<T, T> {
    static void go(char const *what, T const &got, T const &want)
    {
        look(got);
        if (mc::verbose()) mc::note("    %s = %s", what, show(got).c_str());
        if (!same(got, want)) mc::fail("%s: got %s, expected %s", what, show(got).c_str(), show(want).c_str());
    }
};
// the value and, up to const and reference, its type
template<class G, class W> void agree(char const *what, G const &got, W const &want) { same_value<G, W>::go(what, got, want); }
template<class A, class B> void agree_at(char const *what, A const *a, B const *b) { if ((void const *)a != (void const *)b) mc::fail("%s does not return the object itself", what); }

// values of scalars
template<class T, bool F = std::is_floating_point<T>::value> struct values;
template<class T> struct values<T, true> {
    static std::vector<T> const &all()
    {
        typedef std::numeric_limits<T> L;
        static std::vector<T> const v{T(0), T(1), T(-1), T(2.5), T(-7), T(1e10), T(0.1), L::infinity(), -L::infinity(), L::epsilon(), (L::max)(), (L::min)()};
        return v;
    }
    static std::vector<T> const &few() { static std::vector<T> const v{T(0), T(1), T(-2.5), T(7)}; return v; }
};
template<class T> struct values<T, false> {
    static std::vector<T> const &all()
    {
        typedef std::numeric_limits<T> L;
        static std::vector<T> const v{T(0), T(1), T(2), T(3), T(7), T(-1), T(-2), T(-7), T(100), (L::max)(), (L::min)()};
        return v;
    }
    static std::vector<T> const &few() { static std::vector<T> const v{T(0), T(1), T(-2), T(7)}; return v; }
};
template<> struct values<bool, false> {
    static std::vector<bool> const &all() { static std::vector<bool> const v{false, true}; return v; }
};

enum kind { k_add, k_sub, k_mul, k_div, k_mod, k_other };
// may the operands be used at all?  (no signed overflow, no integer division by zero, no conversion that does not fit)
template<class Result, class A, class B> bool defined(kind k, A a, B b)
{
    typedef typename std::common_type<A, B>::type C;
    if (k == k_other) return true;
    if (std::is_integral<C>::value) {
        if ((k == k_div || k == k_mod) && C(b) == C(0)) return false;
        typedef decltype(a + b) P;          // the type after the promotions
        if (!std::is_signed<P>::value) return true;
        __int128 const x = (__int128)a, y = (__int128)b;
        __int128 const r = k == k_add ? x + y : k == k_sub ? x - y : k == k_mul ? x * y : x / y;
        return r >= (__int128)(std::numeric_limits<P>::min)() && r <= (__int128)(std::numeric_limits<P>::max)();
    }
    if (k == k_mod) return false;
    if (std::is_integral<Result>::value) {
        long double const x = a, y = b;
        long double const r = k == k_add ? x + y : k == k_sub ? x - y : k == k_mul ? x * y : x / y;
        return r == r && std::fabs(r) < 30000 && (r >= 0 || std::is_signed<Result>::value);
    }
    return true;
}

#define C24_BINARY(N, OP, K)                                                                                  \
    struct o_##N {                                                                                            \
        static kind const k = K;                                                                              \
        static char const *name() { return #N; }                                                              \
        template<class A, class B> static auto native(A &a, B &b) -> typename std::decay<decltype(a OP b)>::type { return a OP b; } \
        template<class A, class B> static decltype(auto) object(A &a, B &b) { return numeric::N(a, b); }       \
        template<class A, class B> static decltype(auto) type(A &a, B &b) { return numeric::functional::N<A, B>()(a, b); } \
        template<class A, class B> static decltype(auto) op(A &a, B &b) { return numeric::op::N()(a, b); }     \
    };
C24_BINARY(plus, +, k_add)
C24_BINARY(minus, -, k_sub)
C24_BINARY(multiplies, *, k_mul)
C24_BINARY(divides, /, k_div)
C24_BINARY(modulus, %, k_mod)
C24_BINARY(greater, >, k_other)
C24_BINARY(greater_equal, >=, k_other)
C24_BINARY(less, <, k_other)
C24_BINARY(less_equal, <=, k_other)
C24_BINARY(equal_to, ==, k_other)
C24_BINARY(not_equal_to, !=, k_other)
C24_BINARY(assign, =, k_other)
C24_BINARY(plus_assign, +=, k_add)
C24_BINARY(minus_assign, -=, k_sub)
C24_BINARY(multiplies_assign, *=, k_mul)
C24_BINARY(divides_assign, /=, k_div)
C24_BINARY(modulus_assign, %=, k_mod)
#define C24_UNARY(N, OP)                                                                                      \
    struct u_##N {                                                                                            \
        static char const *name() { return #N; }                                                              \
        template<class A> static auto native(A &a) -> typename std::decay<decltype(OP a)>::type { return OP a; } \
        template<class A> static decltype(auto) object(A &a) { return numeric::N(a); }                         \
        template<class A> static decltype(auto) type(A &a) { return numeric::functional::N<A>()(a); }          \
    };
C24_UNARY(unary_plus, +)
C24_UNARY(unary_minus, -)
C24_UNARY(complement, ~)
C24_UNARY(logical_not, !)

// one binary function object on one pair of operands, in every way of calling it
template<class O, class A, class B> void binary(A a, B b)
{
    A const ca = a; B const cb = b; A const a0 = a; B const b0 = b;
    auto const want = O::native(ca, cb);
    agree(O::name(), O::object(a, b), want);
    agree(O::name(), O::object(ca, b), want);
    agree(O::name(), O::object(a, cb), want);
    agree(O::name(), O::object(ca, cb), want);
    agree(O::name(), O::type(a, b), want);
    agree(O::name(), O::type(ca, cb), want);
    agree(O::name(), O::op(ca, cb), want);
    agree(O::name(), O::object(a, a), O::native(ca, ca));
    if (!same(a, a0) || !same(b, b0)) mc::fail("%s changes its operands", O::name());
}
template<class O, class A> void unary(A a)
{
    A const ca = a;
    auto const want = O::native(ca);
    agree(O::name(), O::object(a), want);
    agree(O::name(), O::object(ca), want);
    agree(O::name(), O::type(a), want);
    agree(O::name(), O::type(ca), want);
    if (!same(a, ca)) mc::fail("%s changes its operand", O::name());
}
// one step of a history of in-place operations on one object
template<class O, class A, class B> void in_place(A &a, A &model, B b)
{
    B const cb = b;
    int const how = mc::choose(3);
    if (how == 0) agree_at(O::name(), &O::object(a, b), &a);
    else if (how == 1) agree_at(O::name(), &O::object(a, cb), &a);
    else agree_at(O::name(), &O::type(a, cb), &a);
    O::native(model, cb);
    if (!same(b, cb)) mc::fail("%s changes its right operand", O::name());
}
} // namespace
