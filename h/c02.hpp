#pragma once
// C02: mean / moments / variance / skewness / kurtosis / error of the mean equal their definitions.
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/skewness.hpp>
#include <boost/accumulators/statistics/kurtosis.hpp>
#include <boost/accumulators/statistics/error_of.hpp>
#include <boost/accumulators/statistics/error_of_mean.hpp>
using namespace boost::accumulators;

template<class S, int Max> struct subjects {
    typedef accumulator_set<S, stats<tag::mean, tag::moment<2>, tag::moment<3>, tag::moment<Max>, tag::variance(lazy), tag::skewness, tag::kurtosis, tag::error_of<tag::mean> > > lazy_set;
    typedef accumulator_set<S, stats<tag::mean(immediate), tag::variance(immediate), tag::error_of<tag::mean(immediate)> > > now_set;
    typedef accumulator_set<S, stats<tag::mean> > mean_set;
    typedef accumulator_set<S, stats<tag::immediate_mean> > imean_set;
    typedef accumulator_set<S, stats<tag::variance> > var_set;
    typedef accumulator_set<S, stats<tag::lazy_variance> > lvar_set;
    typedef accumulator_set<S, stats<tag::kurtosis> > kurt_set;
    typedef accumulator_set<S, stats<tag::skewness> > skew_set;
    typedef accumulator_set<S, stats<tag::moment<1>, tag::moment<4> > > mom_set;
    mc::fresh<lazy_set> a; mc::fresh<now_set> b; mc::fresh<mean_set> c; mc::fresh<imean_set> d;
    mc::fresh<var_set> e; mc::fresh<lvar_set> f; mc::fresh<kurt_set> g; mc::fresh<skew_set> h; mc::fresh<mom_set> i;
    ref::sums m;
    subjects() { a.make(); b.make(); c.make(); d.make(); e.make(); f.make(); g.make(); h.make(); i.make(); }
    void push(S x) { (*a)(x); (*b)(x); (*c)(x); (*d)(x); (*e)(x); (*f)(x); (*g)(x); (*h)(x); (*i)(x); m.push(x); }
    void check()
    {
        ref::ld E = ref::eps_of<S>();
        mc::check_eq("count", count(*a), m.n);
        mc::check_eq("count", count(*b), m.n);
        if (!m.n) return;
        mc::check_near("mean", mean(*a), m.mean(), m.tol(1, E));
        mc::check_near("mean (immediate)", mean(*b), m.mean(), m.tol(1, E));
        mc::check_near("mean alone", mean(*c), m.mean(), m.tol(1, E));
        mc::check_near("immediate_mean alone", mean(*d), m.mean(), m.tol(1, E));
        mc::check_near("moment<2>", moment<2>(*a), m.mom(2), m.tol(2, E));
        mc::check_near("moment<3>", moment<3>(*a), m.mom(3), m.tol(3, E));
        mc::check_near("moment<Max>", moment<Max>(*a), m.mom(Max), m.tol(Max, E));
        mc::check_near("moment<1> alone", moment<1>(*i), m.mom(1), m.tol(1, E));
        mc::check_near("moment<4> alone", moment<4>(*i), m.mom(4), m.tol(4, E));
        mc::check_near("variance (lazy)", variance(*a), m.var(), m.tol(2, E));
        mc::check_near("variance (immediate)", variance(*b), m.var(), m.tol(2, E));
        mc::check_near("variance alone", variance(*e), m.var(), m.tol(2, E));
        mc::check_near("lazy_variance alone", variance(*f), m.var(), m.tol(2, E));
        if (m.shape_defined(E)) {
            mc::check_near("skewness", skewness(*a), m.skew(), m.skew_tol(E));
            mc::check_near("skewness alone", skewness(*h), m.skew(), m.skew_tol(E));
            mc::check_near("kurtosis", kurtosis(*a), m.kurt(), m.kurt_tol(E));
            mc::check_near("kurtosis alone", kurtosis(*g), m.kurt(), m.kurt_tol(E));
            ref::ld err = std::sqrt(m.var() / (m.n - 1)), t = m.tol(2, E) / m.var() * err + 8 * E * err;
            mc::check_near("error_of<mean>", error_of<tag::mean>(*a), err, t);
            mc::check_near("error_of<mean> (immediate)", error_of<tag::mean(immediate)>(*b), err, t);
        }
    }
};

template<class S, int Max> void words()
{
    subjects<S, Max> s; std::vector<S> A = ref::alphabet<S>::get();
    ref::watch w; int D = mc::depth(6, 7);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int c = i < D ? mc::choose((int)A.size() + 1) : 0;
        if (!c) break;
        mc::note("push %s", mc::str(A[c - 1]).c_str());
        s.push(A[c - 1]);
    }
    s.check(); mc::step();
}
// all words of length <= 3 over the alphabet, repeated cyclically, after every prefix of length <= 1
template<class S, int Max> void cyclic()
{
    subjects<S, Max> s; std::vector<S> A = ref::alphabet<S>::get();
    if (std::is_integral<S>::value) A.back() = 11;   // the sums of fourth powers must fit the type
    int pre = mc::choose((int)A.size() + 1); if (pre) s.push(A[pre - 1]);
    int L = 1 + mc::choose(3); std::vector<S> word; for (int i = 0; i < L; ++i) word.push_back(mc::pick(A));
    int N = mc::depth(300, 1000);
    for (int i = 0; i < N; ++i) { s.push(word[i % L]); if (i < 40 || i % 16 == 0 || i == N - 1) { s.check(); mc::step(); } }
}

// very long histories: few samples, looked at around the powers of two and now and then
template<class S, int Max> void marathon()
{
    subjects<S, Max> s; S const V[] = {(S)1, (S)3, std::is_signed<S>::value ? (S)-2 : (S)0};
    S const a = mc::pick(V), b = mc::pick(V);
    int const N = mc::depth(70000, 300000);
    for (int i = 1; i <= N; ++i) {
        s.push(i % 3 ? a : b);
        if (i <= 3 || i % 9973 == 0 || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || ((i - 1) & (i - 2)) == 0 || i == N) { s.check(); mc::step(); }
    }
}
// the same shapes at other orders of magnitude, far from zero, with denormal-sized differences of scale
template<class S, int Max> void scales()
{
    static double const F[] = {1e-40, 1e-9, 1e9, 1e30}; static double const V[] = {0, 2.5, -2.5, 3};
    double const f = mc::pick(F); int const far = mc::choose(2);
    subjects<S, Max> s; mc::note("scale %g%s", f, far ? ", far from zero" : "");
    int const D = mc::depth(5, 6);
    for (int i = 0; i < D; ++i) {
        int const c = mc::choose(4); S const x = (S)((V[c] + (far ? 1000 : 0)) * f);
        mc::note("push %s", mc::str(x).c_str());
        s.push(x); s.check(); mc::step();
    }
}
// the other integer types, and values so small that the sums of fourth powers fit
template<class S> void small()
{
    S const A[] = {(S)1, (S)2, (S)0, std::is_signed<S>::value ? (S)-2 : (S)2};
    subjects<S, 4> s; int const n = std::is_signed<S>::value ? 4 : 3;
    for (int i = 0, D = mc::depth(6, 7); i < D; ++i) { S const x = A[mc::choose(n)]; mc::note("push %d", (int)x); s.push(x); s.check(); mc::step(); }
}
