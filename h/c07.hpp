#pragma once
// C07: rolling mean, moments and variance, lazy and immediate, equal the statistics of the window.
#include "rolling.hpp"
template<class S, int Max> struct subjects {
    typedef accumulator_set<S, stats<tag::rolling_mean(lazy), tag::rolling_moment<2>, tag::rolling_moment<Max>, tag::rolling_variance(lazy)> > lazy_set;
    typedef accumulator_set<S, stats<tag::rolling_mean(immediate), tag::rolling_variance(immediate)> > now_set;
    typedef accumulator_set<S, stats<tag::rolling_variance> > var_set;
    typedef accumulator_set<S, stats<tag::lazy_rolling_variance> > lvar_set;
    typedef accumulator_set<S, stats<tag::rolling_mean> > mean_set;
    typedef accumulator_set<S, stats<tag::lazy_rolling_mean> > lmean_set;
    typedef accumulator_set<S, stats<tag::rolling_moment<3> > > mom_set;
    typedef accumulator_set<S, stats<tag::rolling_variance(immediate), tag::rolling_mean(lazy), tag::rolling_sum> > mix_set;
    mc::fresh<lazy_set> a; mc::fresh<now_set> b; mc::fresh<var_set> c; mc::fresh<lvar_set> d; mc::fresh<mean_set> e; mc::fresh<lmean_set> f; mc::fresh<mom_set> g; mc::fresh<mix_set> h;
    window<S> m;
    explicit subjects(int n) : m(n)
    {
        a.make(tag::rolling_mean::window_size = n); b.make(tag::rolling_variance::window_size = n); c.make(tag::rolling_window::window_size = n); d.make(tag::rolling_window::window_size = n);
        e.make(tag::rolling_window::window_size = n); f.make(tag::rolling_window::window_size = n); g.make(tag::rolling_moment<3>::window_size = n); h.make(tag::rolling_window::window_size = n);
    }
    void push(S x) { (*a)(x); (*b)(x); (*c)(x); (*d)(x); (*e)(x); (*f)(x); (*g)(x); (*h)(x); m.push(x); }
    template<class X> void sv(char const *what, X v)
    {
        if (m.q.size() >= 2) mc::check_near(what, v, m.var(), m.tol(2)); else mc::check_eq(what, v, X());
    }
    // the incremental variance must not turn negative by rounding: its square root is taken
    template<class X> void nonnegative(char const *what, X v) { if (v < X()) mc::fail("%s: %.17g is negative", what, (double)v); }
    void check()
    {
        if (!m.pushed) return;
        ref::ld t = m.tol(1);
        mc::check_near("rolling_mean (lazy)", rolling_mean(*a), m.mean(), t);
        mc::check_near("rolling_mean (immediate)", rolling_mean(*b), m.mean(), t);
        mc::check_near("rolling_mean alone", rolling_mean(*e), m.mean(), t);
        mc::check_near("lazy_rolling_mean alone", rolling_mean(*f), m.mean(), t);
        mc::check_near("rolling_mean (mixed)", rolling_mean(*h), m.mean(), t);
        mc::check_near("rolling_moment<2>", rolling_moment<2>(*a), m.sum(2) / m.q.size(), m.tol(2));
        mc::check_near("rolling_moment<Max>", rolling_moment<Max>(*a), m.sum(Max) / m.q.size(), m.tol(Max));
        mc::check_near("rolling_moment<3> alone", rolling_moment<3>(*g), m.sum(3) / m.q.size(), m.tol(3));
        mc::check_near("rolling_sum (mixed)", rolling_sum(*h), m.sum(), t);
        sv("rolling_variance (lazy)", rolling_variance(*a));
        sv("rolling_variance (immediate)", rolling_variance(*b));
        sv("rolling_variance alone", rolling_variance(*c));
        nonnegative("rolling_variance (immediate)", rolling_variance(*b)); nonnegative("rolling_variance alone", rolling_variance(*c)); nonnegative("rolling_variance (mixed)", rolling_variance(*h));
        sv("lazy_rolling_variance alone", rolling_variance(*d));
        sv("rolling_variance (mixed)", rolling_variance(*h));
    }
};
template<class S, int Max> void words()
{
    int n = 1 + mc::choose(mc::depth(4, 5));
    subjects<S, Max> s(n); std::vector<S> A = ref::alphabet<S>::get(); A.resize(mc::thorough() ? 4 : 5);
    mc::note("window size %d", n);
    ref::watch w; int D = mc::depth(6, 8);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int c = i < D ? mc::choose((int)A.size() + 1) : 0;
        if (!c) break;
        mc::note("push %s", mc::str(A[c - 1]).c_str());
        s.push(A[c - 1]);
    }
    s.check(); mc::step();
}
template<class S, int Max> void cyclic()
{
    static int const sizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 64, 100};
    int n = mc::pick(sizes);
    subjects<S, Max> s(n); std::vector<S> A = ref::alphabet<S>::get(); if (std::is_integral<S>::value) A.back() = 11;
    int L = 1 + mc::choose(mc::depth(2, 3)); std::vector<S> word; for (int i = 0; i < L; ++i) word.push_back(mc::pick(A));
    int N = 3 * n + 40;
    for (int i = 0; i < N; ++i) {
        s.push((S)(word[i % L] + (S)(i % 11)));
        if (i < 12 || i % 7 == 0 || (i >= n - 2 && i <= n + 2) || i == N - 1) { s.check(); mc::step(); }
    }
}

template<class S, int Max> void marathon()
{
    static int const sizes[] = {1, 2, 5, 255, 256, 257, 1000, 65537};
    int const n = mc::pick(sizes), k = 1 + mc::choose(3); subjects<S, Max> s(n);
    int const N = n < 65536 ? mc::depth(66000, 300000) : n + 70;
    for (int i = 1; i <= N; ++i) {
        s.push((S)(i * k % 13));
        bool const p2 = (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || ((i - 1) & (i - 2)) == 0, edge = i >= n - 1 && i <= n + 1;
        if (i == N || edge || (n < 65536 && (p2 || i % 9973 == 0))) { s.check(); mc::step(); }
    }
}
template<class S, int Max> void scales()
{
    static double const F[] = {1e-40, 1e-9, 1e9, 1e40}, V[] = {0, 2.5, -2.5};
    int const n = 1 + mc::choose(3), far = mc::choose(2); double const f = mc::pick(F); subjects<S, Max> s(n); mc::note("window size %d, scale %g", n, f);
    for (int i = 0, D = mc::depth(5, 7); i < D; ++i) { s.push((S)((mc::pick(V) + (far ? 1000 : 0)) * f)); s.check(); mc::step(); }
}
// a few scattered samples, then the same one until nothing else is in the window
template<class S, int Max> void settling()
{
    static double const V[] = {0.1, 0.7, 1. / 3, 100.1, -17.3};
    int const n = 2 + mc::choose(4); subjects<S, Max> s(n); mc::note("window size %d", n);
    for (int i = 0, D = mc::depth(4, 5); i < D; ++i) { S x = (S)mc::pick(V); mc::note("push %.9g", (double)x); s.push(x); s.check(); mc::step(); }
    S const x = (S)mc::pick(V); mc::note("push %.9g %d times", (double)x, n + 1);
    for (int i = 0; i <= n; ++i) { s.push(x); s.check(); mc::step(); }
}
// the other types, values so small that the sums of third powers fit
template<class S> void small()
{
    S const A[] = {(S)1, (S)2, (S)0, std::is_signed<S>::value ? (S)-2 : (S)1};
    int const n = 1 + mc::choose(3); subjects<S, 4> s(n); mc::note("window size %d", n);
    for (int i = 0, D = mc::depth(5, 7); i < D; ++i) { S const x = mc::pick(A); mc::note("push %g", (double)x); s.push(x); s.check(); mc::step(); }
}
