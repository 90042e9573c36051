#pragma once
// C03: the weighted statistics equal their definitions; an integer weight is a repetition.
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/skewness.hpp>
#include <boost/accumulators/statistics/kurtosis.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/weighted_skewness.hpp>
#include <boost/accumulators/statistics/weighted_kurtosis.hpp>
using namespace boost::accumulators;

template<class W, bool I = std::is_integral<W>::value> struct wts { static std::vector<W> get() { return {(W)1, (W)2.5, (W)0.25, (W)0}; } };
template<class W> struct wts<W, true> { static std::vector<W> get() { return {(W)1, (W)5, (W)0}; } };

template<class S, class W, int Max> struct subjects {
    typedef accumulator_set<S, stats<tag::sum, tag::mean, tag::moment<2>, tag::moment<Max>, tag::variance(lazy), tag::skewness, tag::kurtosis, tag::sum_of_weights, tag::mean_of_weights>, W> lazy_set;
    typedef accumulator_set<S, stats<tag::mean(immediate), tag::variance(immediate), tag::immediate_mean_of_weights>, W> now_set;
    typedef accumulator_set<S, stats<tag::weighted_mean>, W> mean_set;
    typedef accumulator_set<S, stats<tag::weighted_variance>, W> var_set;
    typedef accumulator_set<S, stats<tag::weighted_skewness>, W> skew_set;
    typedef accumulator_set<S, stats<tag::weighted_kurtosis, tag::weighted_moment<3> >, W> kurt_set;
    typedef accumulator_set<S, stats<tag::weighted_sum, tag::immediate_weighted_mean, tag::lazy_weighted_variance>, W> misc_set;
    typedef accumulator_set<S, stats<tag::sum, tag::mean, tag::moment<Max>, tag::variance, tag::skewness, tag::kurtosis> > plain_set;
    mc::fresh<lazy_set> a; mc::fresh<now_set> b; mc::fresh<mean_set> c; mc::fresh<var_set> d;
    mc::fresh<skew_set> e; mc::fresh<kurt_set> f; mc::fresh<misc_set> g; mc::fresh<plain_set> p;
    ref::sums m, rep; ref::ld swx = 0, aswx = 0; std::size_t n = 0;
    subjects() { a.make(); b.make(); c.make(); d.make(); e.make(); f.make(); g.make(); p.make(); }
    void push(S x, W w)
    {
        if (!n && w == W()) w = (W)3;   // the mean of samples that weigh nothing is no claim
        (*a)(x, weight = w); (*b)(x, weight = w); (*c)(x, weight = w); (*d)(x, weight = w);
        (*e)(x, weight = w); (*f)(x, weight = w); (*g)(x, weight = w);
        m.push(x, w); ++n;
        if (std::is_integral<W>::value) for (int k = 0; k < (int)w; ++k) { (*p)(x); rep.push(x); }
    }
    void check()
    {
        ref::ld E = ref::eps_of<S>(); if (ref::eps_of<W>() > E) E = ref::eps_of<W>();
        mc::check_eq("count", count(*a), n);
        mc::check_near("sum_of_weights", sum_of_weights(*a), m.W, E * 8 * (n + 1) * m.W);
        mc::check_near("weighted sum", weighted_sum(*a), m.p[1], E * 8 * (n + 2) * m.q[1]);
        mc::check_near("sum in a weighted set", sum(*a), m.p[1], E * 8 * (n + 2) * m.q[1]);
        mc::check_near("weighted sum alone", weighted_sum(*g), m.p[1], E * 8 * (n + 2) * m.q[1]);
        if (!n) return;
        ref::ld mw = m.W / n;
        mc::check_near("mean_of_weights", mean_of_weights(*a), mw, E * 16 * (n + 2) * mw);
        mc::check_near("mean_of_weights (immediate)", mean_of_weights(*b), mw, E * 16 * (n + 2) * mw);
        ref::ld t1 = m.tol(1, E), t2 = m.tol(2, E);
        mc::check_near("weighted mean", mean(*a), m.mean(), t1);
        mc::check_near("weighted_mean extractor", weighted_mean(*a), m.mean(), t1);
        mc::check_near("weighted mean (immediate)", mean(*b), m.mean(), t1);
        mc::check_near("weighted mean alone", weighted_mean(*c), m.mean(), t1);
        mc::check_near("immediate_weighted_mean", weighted_mean(*g), m.mean(), t1);
        mc::check_near("weighted moment<2>", moment<2>(*a), m.mom(2), t2);
        mc::check_near("weighted moment<Max>", moment<Max>(*a), m.mom(Max), m.tol(Max, E));
        mc::check_near("weighted_moment<3>", weighted_moment<3>(*f), m.mom(3), m.tol(3, E));
        mc::check_near("weighted variance (lazy)", variance(*a), m.var(), t2);
        mc::check_near("weighted variance (immediate)", variance(*b), m.var(), t2);
        mc::check_near("weighted_variance alone", weighted_variance(*d), m.var(), t2);
        mc::check_near("lazy_weighted_variance", weighted_variance(*g), m.var(), t2);
        bool shape = m.shape_defined(E);
        if (shape) {
            mc::check_near("weighted skewness", skewness(*a), m.skew(), m.skew_tol(E));
            mc::check_near("weighted skewness alone", weighted_skewness(*e), m.skew(), m.skew_tol(E));
            mc::check_near("weighted kurtosis", kurtosis(*a), m.kurt(), m.kurt_tol(E));
            mc::check_near("weighted kurtosis alone", weighted_kurtosis(*f), m.kurt(), m.kurt_tol(E));
        }
        if (std::is_integral<W>::value) {   // an integer weight counts as so many repetitions
            mc::check_near("sum of repeated samples", sum(*p), (ref::ld)weighted_sum(*a), E * 16 * (rep.n + 2) * m.q[1]);
            mc::check_near("mean of repeated samples", mean(*p), (ref::ld)mean(*a), 2 * rep.tol(1, E));
            mc::check_near("moment of repeated samples", moment<Max>(*p), (ref::ld)moment<Max>(*a), 2 * rep.tol(Max, E));
            mc::check_near("variance of repeated samples", variance(*p), (ref::ld)variance(*b), 2 * rep.tol(2, E));
            if (shape) {
                mc::check_near("skewness of repeated samples", skewness(*p), (ref::ld)skewness(*a), 2 * rep.skew_tol(E));
                mc::check_near("kurtosis of repeated samples", kurtosis(*p), (ref::ld)kurtosis(*a), 2 * rep.kurt_tol(E));
            }
        }
    }
};
template<class S, class W, int Max> void words()
{
    subjects<S, W, Max> s; std::vector<S> A = ref::alphabet<S>::get(); A.erase(A.begin() + 3);
    if (std::is_integral<S>::value) A.back() = 40;
    std::vector<W> B = wts<W>::get();
    ref::watch w; int D = mc::depth(4, 5);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int c = i < D ? mc::choose((int)(A.size() * B.size()) + 1) : 0;
        if (!c) break;
        --c; S x = A[c % A.size()]; W y = B[c / A.size()];
        mc::note("push %s weight %s", mc::str(x).c_str(), mc::str(y).c_str());
        s.push(x, y);
    }
    s.check(); mc::step();
}
template<class S, class W, int Max> void cyclic()
{
    subjects<S, W, Max> s; std::vector<S> A = ref::alphabet<S>::get(); A.erase(A.begin() + 3);
    std::vector<W> B = wts<W>::get();
    if (std::is_integral<S>::value) A.back() = 11;   // the sums of fourth powers must fit the type
    int L = 1 + mc::choose(2); std::vector<S> word; std::vector<W> ww;
    for (int i = 0; i < L; ++i) { word.push_back(mc::pick(A)); ww.push_back(mc::pick(B)); }
    int N = mc::depth(300, 1000);
    if (std::is_integral<W>::value) N /= 2;
    for (int i = 0; i < N; ++i) { s.push(word[i % L], ww[i % L]); if (i < 40 || i % 16 == 0 || i == N - 1) { s.check(); mc::step(); } }
}

template<class S, class W, int Max> void marathon()
{
    subjects<S, W, Max> s; S const V[] = {(S)1, (S)3, std::is_signed<S>::value ? (S)-2 : (S)0}; std::vector<W> B = wts<W>::get();
    S const a = mc::pick(V), b = mc::pick(V); W const w = mc::pick(B), v = (W)2;
    int const N = mc::depth(70000, 140000);
    for (int i = 1; i <= N; ++i) {
        s.push(i % 3 ? a : b, i % 3 ? v : w);
        if (i <= 3 || i % 9973 == 0 || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || ((i - 1) & (i - 2)) == 0 || i == N) { s.check(); mc::step(); }
    }
}
template<class S, class W, int Max> void scales()
{
    static double const F[] = {1e-40, 1e-9, 1e9, 1e30}, V[] = {0, 2.5, -2.5}, G[] = {1, 1e-12, 1e12};
    double const f = mc::pick(F), g = mc::pick(G); int const far = mc::choose(2);
    subjects<S, W, Max> s; mc::note("scale %g, weights %g%s", f, g, far ? ", far from zero" : "");
    int const D = mc::depth(4, 5);
    for (int i = 0; i < D; ++i) {
        S const x = (S)((mc::pick(V) + (far ? 1000 : 0)) * f); W const w = (W)(g * (1 + 2.5 * mc::choose(2)));
        mc::note("push %s weight %s", mc::str(x).c_str(), mc::str(w).c_str());
        s.push(x, w); s.check(); mc::step();
    }
}
// other combinations of types, values so small that the sums of fourth powers fit
template<class S, class W> void small()
{
    S const A[] = {(S)1, (S)2, (S)0, std::is_signed<S>::value ? (S)-2 : (S)1}; W const B[] = {(W)1, (W)2, (W)0.5};
    subjects<S, W, 4> s;
    for (int i = 0, D = mc::depth(3, 4); i < D; ++i) { S const x = mc::pick(A); W const w = mc::pick(B); mc::note("push %g weight %g", (double)x, (double)w); s.push(x, w); s.check(); mc::step(); }
}
