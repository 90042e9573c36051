#pragma once
#include "c24.hpp"
namespace {
template<class V> struct filled;
template<class T> struct filled<std::vector<T> > { static std::vector<T> make(std::size_t n) { return std::vector<T>(n); } };
template<class T> struct filled<std::valarray<T> > { static std::valarray<T> make(std::size_t n) { return std::valarray<T>(n); } };
template<class V> V array_of(int n, std::vector<typename V::value_type> const &dom)
{
    V v = filled<V>::make(n);
    for (int i = 0; i < n; ++i) v[i] = dom[mc::choose((int)dom.size())];
    return v;
}
inline int wide_size() { static int const ns[] = {4, 5, 8, 9, 17}; return mc::pick(ns); }
// n elements in a pattern that starts at shift
template<class V> V wide(int n, int shift = 0, bool nonzero = false)
{
    static int const p[] = {3, -4, 9, 2, 0, -7, 5, 1, -1, 12, 6};
    V v = filled<V>::make(n);
    for (int i = 0; i < n; ++i) { int e = p[(i * (shift + 1) + 3 * shift) % 11]; if (nonzero && !e) e = 8; v[i] = typename V::value_type(e) / typename V::value_type(std::is_integral<typename V::value_type>::value ? 1 : 4); }
    return v;
}
template<class V, class T> struct rebind;
template<class U, class T> struct rebind<std::vector<U>, T> { typedef std::vector<T> type; };
template<class U, class T> struct rebind<std::valarray<U>, T> { typedef std::valarray<T> type; };
// elementwise model
template<class O, class V> struct lift {
    template<class X, class Y> static auto vv(X const &x, Y const &y)
    {
        typedef decltype(O::native(std::declval<typename X::value_type &>(), std::declval<typename Y::value_type &>())) E;
        auto r = filled<typename rebind<V, E>::type>::make(x.size());
        for (std::size_t i = 0; i < x.size(); ++i) { auto a = x[i]; auto b = y[i]; r[i] = O::native(a, b); }
        return r;
    }
    template<class X, class S> static auto vs(X const &x, S s)
    {
        typedef decltype(O::native(std::declval<typename X::value_type &>(), s)) E;
        auto r = filled<typename rebind<V, E>::type>::make(x.size());
        for (std::size_t i = 0; i < x.size(); ++i) { auto a = x[i]; r[i] = O::native(a, s); }
        return r;
    }
    template<class S, class X> static auto sv(S s, X const &x)
    {
        typedef decltype(O::native(s, std::declval<typename X::value_type &>())) E;
        auto r = filled<typename rebind<V, E>::type>::make(x.size());
        for (std::size_t i = 0; i < x.size(); ++i) { auto a = x[i]; r[i] = O::native(s, a); }
        return r;
    }
};
template<class O, class A, class B, class W> void all_ways(A a, B b, W const &want)
{
    A const ca = a; B const cb = b; A const a0 = a; B const b0 = b;
    agree(O::name(), O::object(a, b), want);
    agree(O::name(), O::object(ca, b), want);
    agree(O::name(), O::object(a, cb), want);
    agree(O::name(), O::object(ca, cb), want);
    agree(O::name(), O::type(a, b), want);
    agree(O::name(), O::type(ca, cb), want);
    agree(O::name(), O::op(ca, cb), want);
    if (!same(a, a0) || !same(b, b0)) mc::fail("%s changes its operands", O::name());
}
template<class T> std::vector<T> dom3() { return std::vector<T>{T(3), T(-2), T(7)}; }
template<class T> std::vector<T> dom2() { return std::vector<T>{T(2), T(-5)}; }
template<> std::vector<double> dom3<double>() { return std::vector<double>{2.5, -3., 0.1}; }
template<> std::vector<float> dom3<float>() { return std::vector<float>{2.5f, -3.f, 0.1f}; }
inline int size_() { return mc::choose(mc::depth(4, 5)); }
struct o_fdiv {
    static char const *name() { return "fdiv"; }
    template<class A, class B> static decltype(auto) object(A &a, B &b) { return numeric::fdiv(a, b); }
    template<class A, class B> static decltype(auto) type(A &a, B &b) { return numeric::functional::fdiv<A, B>()(a, b); }
    template<class A, class B> static decltype(auto) op(A &a, B &b) { return numeric::op::fdiv()(a, b); }
    template<class A, class B, bool I> struct value { typedef decltype(std::declval<A>() / std::declval<B>()) type; static type go(A a, B b) { return a / b; } };
    template<class A, class B> struct value<A, B, true> { typedef double type; static double go(A a, B b) { return double(a) / double(b); } };
    template<class A, class B> static auto native(A const &a, B const &b) { return value<A, B, std::is_integral<A>::value && std::is_integral<B>::value>::go(a, b); }
};
template<class T> void limits_of(T t)
{
    typedef typename T::value_type E; typedef std::numeric_limits<E> L;
    T const ct = t; std::size_t const n = t.size();
    E const lo = std::is_floating_point<E>::value ? E(-(L::max)()) : (L::min)(), hi = (L::max)();
    T l = filled<T>::make(n), h = l, z = l, o = l;
    for (std::size_t i = 0; i < n; ++i) { l[i] = lo; h[i] = hi; z[i] = E(0); o[i] = E(1); }
    agree("as_min", numeric::as_min(t), l); agree("as_min", numeric::as_min(ct), l);
    agree("as_max", numeric::as_max(t), h); agree("as_max", numeric::as_max(ct), h);
    agree("as_zero", numeric::as_zero(t), z); agree("as_zero", numeric::as_zero(ct), z);
    agree("as_one", numeric::as_one(t), o); agree("as_one", numeric::as_one(ct), o);
}
template<class To, class V> void promote_one(V v)
{
    typedef typename rebind<V, To>::type R;
    V const cv = v;
    R want = filled<R>::make(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) want[i] = To(v[i]);
    agree("promote", numeric::promote<R>(v), want); agree("promote", numeric::promote<R>(cv), want);
    agree_at("promote to the same type", &numeric::promote<V>(v), &v);
    agree_at("promote to the same type", &numeric::promote<V>(cv), &cv);
    if (!same(v, cv)) mc::fail("promote changes its operand");
}
// in-place operations that arrays have in common
template<class V> void extreme(V &x, V &m, V const &b, bool low)
{
    V bb = b;
    int const how = mc::choose(2);
    if (low) { if (how) numeric::min_assign(x, b); else numeric::min_assign(x, bb); }
    else { if (how) numeric::max_assign(x, b); else numeric::max_assign(x, bb); }
    for (std::size_t i = 0; i < m.size(); ++i) if (low ? b[i] < m[i] : b[i] > m[i]) m[i] = b[i];
    if (!same(bb, b)) mc::fail("an operation changes its right operand");
}
} // namespace
