#pragma once
// C15: peaks over threshold: generalized Pareto fit, quantile and tail mean, against the method of
// moments over the samples beyond the threshold.
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/weighted_peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/pot_quantile.hpp>
#include <boost/accumulators/statistics/pot_tail_mean.hpp>
using namespace boost::accumulators;
using ref::ld;

struct fit { ld u, beta, xi; bool ok; };
inline fit moments_fit(ld u, ld P, ld n, ld s, ld s2)
{
    fit f = {0, 0, 0, false};
    if (n <= 0) return f;
    ld mu = s / n, v = s2 / n - mu * mu;
    if (v < 1e-6L * mu * mu || v < 1e-300L) return f;                // no spread: the fit does not exist
    ld t = (mu - u) * (mu - u) / v; f.xi = 0.5L * (1 - t);
    if (std::fabs(f.xi) < 1e-4L || std::fabs(f.xi - 1) < 1e-4L) return f;   // the formula has a pole
    if (std::fabs(f.xi) > 20) return f;                     // the powers leave the range where rounding is tame
    ld b = 0.5L * (mu - u) * (1 + t);
    f.beta = b * std::pow(P, f.xi); f.u = u - f.beta * (std::pow(P, -f.xi) - 1) / f.xi; f.ok = true;
    return f;
}
template<class LR, class A> void compare(char const *what, A const &a, std::vector<fit> const &may, bool nan_ok, bool nan_must)
{
    auto r = peaks_over_threshold(a); ld g0 = boost::get<0>(r), g1 = boost::get<1>(r), g2 = boost::get<2>(r);
    mc::observe((double)g0); mc::observe((double)g1); mc::observe((double)g2);
    auto r2 = peaks_over_threshold(a);
    bool nan = !(g0 == g0) && !(g1 == g1) && !(g2 == g2);
    auto eq = [](ld x, ld y) { return x == y || (x != x && y != y); };
    if (!eq(boost::get<0>(r2), g0) || !eq(boost::get<1>(r2), g1) || !eq(boost::get<2>(r2), g2)) mc::fail("%s: asking twice gave two fits", what);
    if (mc::verbose()) mc::note("    %s: fit %.9Lg %.9Lg %.9Lg", what, g0, g1, g2);
    if (nan_must) {
        if (!nan) mc::fail("%s: a fit (%.9Lg, %.9Lg, %.9Lg) although too few samples are cached", what, g0, g1, g2);
        return;
    }
    if (nan && nan_ok) return;
    fit const *hit = 0;
    auto near = [](ld x, ld y, ld sc) { return std::fabs(x - y) <= 1e-7L * (std::fabs(sc) + std::fabs(y)); };
    for (auto const &f : may) {
        if (!f.ok) return;                 // some acceptable reading has no fit: nothing to compare
        if (near(g0, f.u, f.beta) && near(g1, f.beta, 0) && near(g2, f.xi, 1)) hit = &f;
    }
    if (!hit) mc::fail("%s: fit (%.9Lg, %.9Lg, %.9Lg), expected (%.9Lg, %.9Lg, %.9Lg)", what, g0, g1, g2, may[0].u, may[0].beta, may[0].xi);
    ld sg = std::is_same<LR, left>::value ? -1 : 1;
    for (double p : {0.5, 0.01, 0.95, 0.99}) {
        ld al = std::is_same<LR, left>::value ? (ld)p : 1 - (ld)p;
        ld q = sg * (hit->u + hit->beta / hit->xi * (std::pow(al, -hit->xi) - 1));
        ld m = q - sg * hit->beta / (hit->xi - 1) * std::pow(al, -hit->xi);
        ld sc = std::fabs(hit->u) + std::fabs(hit->beta / hit->xi) * (1 + std::pow(al, -hit->xi)) * (1 + 1 / std::fabs(hit->xi - 1));
        mc::check_near("pot quantile", quantile(a, quantile_probability = p), q, 1e-6L * sc);
        mc::check_near("pot tail_mean", tail_mean(a, quantile_probability = p), m, 1e-6L * sc);
    }
}
// threshold given as a value
template<class LR, class S = double> struct by_value {
    typedef accumulator_set<S, stats<tag::pot_tail_mean<LR>(with_threshold_value)> > set;
    typedef accumulator_set<S, stats<tag::pot_tail_mean<LR>(with_threshold_value)>, double> wset;
    mc::fresh<set> a; mc::fresh<wset> b; ld u; ld sg = std::is_same<LR, left>::value ? -1 : 1;
    ld n = 0, s = 0, s2 = 0, N = 0, wn = 0, ws = 0, ws2 = 0, wN = 0;
    explicit by_value(double t) : u(t) { a.make(tag::peaks_over_threshold<LR>::threshold_value = t); b.make(tag::peaks_over_threshold<LR>::threshold_value = t); mc::note("threshold %g", t); }
    void push(double x_, double w)
    {
        S const x = (S)x_; (*a)(x); (*b)(x, weight = w); N += 1; wN += w;
        if (sg * x > sg * u) { n += 1; s += sg * x; s2 += (ld)x * x; wn += w; ws += sg * x * w; ws2 += (ld)x * x * w; }
    }
    void check()
    {
        if (n < 2) return;
        compare<LR>("peaks_over_threshold", *a, {moments_fit(sg * u, n / N, n, s, s2)}, false, false);
        compare<LR>("weighted_peaks_over_threshold", *b, {moments_fit(sg * u, wn / wN, wn, ws, ws2)}, false, false);
    }
};
// threshold given as a probability: the order statistic of the cached tail
template<class LR, class S = double> struct by_prob {
    typedef accumulator_set<S, stats<tag::pot_tail_mean<LR>(with_threshold_probability)> > set;
    typedef accumulator_set<S, stats<tag::pot_tail_mean<LR>(with_threshold_probability)>, double> wset;
    mc::fresh<set> a; mc::fresh<wset> b; double p; std::size_t cap; ld sg = std::is_same<LR, left>::value ? -1 : 1;
    std::vector<std::pair<double, double> > xs;
    by_prob(double p_, std::size_t c) : p(p_), cap(c)
    {
        a.make(tag::tail<LR>::cache_size = c, tag::peaks_over_threshold_prob<LR>::threshold_probability = p);
        b.make(tag::tail<LR>::cache_size = c, tag::peaks_over_threshold_prob<LR>::threshold_probability = p);
        mc::note("threshold probability %g, cache size %zu", p, c);
    }
    void push(double x_, double w) { S const x = (S)x_; (*a)(x); (*b)(x, weight = w); xs.push_back({x, w}); }
    void check()
    {
        if (xs.empty()) { compare<LR>("peaks_over_threshold_prob of nothing", *a, {}, true, true); compare<LR>("weighted_peaks_over_threshold_prob of nothing", *b, {}, true, true); return; }
        ld lev = std::is_same<LR, left>::value ? (ld)p : 1 - (ld)p;
        auto t = xs; std::sort(t.begin(), t.end(), [this](std::pair<double, double> const &l, std::pair<double, double> const &r) { return sg * l.first > sg * r.first; });
        std::size_t have = std::min(cap, t.size());
        {
            ld z = t.size() * lev; std::vector<std::size_t> ns{(std::size_t)std::ceil(z)};
            if (std::fabs(z - std::floor(z + 0.5L)) < 1e-9L) { ns[0] = (std::size_t)std::floor(z + 0.5L); ns.push_back(ns[0] + 1); }
            std::vector<fit> may; bool nan_ok = false, nan_must = true;
            for (std::size_t n : ns) {
                if (n >= have) nan_ok = true;                  // exactly the needed number cached: both readings
                if (n > have || n == 0) continue;
                nan_must = false;
                ld s = 0, s2 = 0; for (std::size_t i = 0; i < n; ++i) { s += sg * t[i].first; s2 += (ld)t[i].first * t[i].first; }
                may.push_back(moments_fit(sg * t[n - 1].first, lev, n, s, s2));
            }
            compare<LR>("peaks_over_threshold_prob", *a, may, nan_ok, nan_must);
        }
        {   // weighted: samples are taken from the tail until their weights reach the level
            bool distinct = true; for (std::size_t i = 1; i < t.size(); ++i) distinct = distinct && t[i].first != t[i - 1].first;
            if (!distinct) return;
            ld W = 0; for (auto &e : xs) W += e.second;
            ld T = W * lev, c = 0, s = 0, s2 = 0; std::vector<fit> may; bool nan_ok = true, nan_must = true;
            for (std::size_t i = 0; i < have; ++i) {
                ld w = t[i].second; c += w; s += sg * t[i].first * w; s2 += (ld)t[i].first * t[i].first * w;
                if (c < T - 1e-9L * W) continue;
                may.push_back(moments_fit(sg * t[i].first, lev, c, s, s2)); nan_must = false;
                if (c > T + 1e-9L * W) { nan_ok = false; break; }
            }
            compare<LR>("weighted_peaks_over_threshold_prob", *b, may, nan_ok, nan_must);
        }
    }
};
template<class Sub> void drive(Sub &s, int D)
{
    static double const X[] = {0., 3., -3., 7.5, -8., 4.}; static double const Ws[] = {1., 2., 0.5};
    ref::watch w; int wshape = mc::choose(2);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int k = i < D ? mc::choose(7) : 0;
        if (!k) break;
        mc::note("push %g", X[k - 1]);
        s.push(X[k - 1], wshape ? Ws[i % 3] : 1.);
    }
    s.check(); mc::step();
}
template<class Sub> void runs(Sub &s, int len)
{
    static int const mul[] = {1, 96, 31, 7}; int a = mc::pick(mul), form = mc::choose(3), gap = mc::choose(2) ? 9 : 1;
    for (int i = 0; i < len; ++i) {
        int r = (i * a) % 97; double x = form == 0 ? r - 48. : form == 1 ? 0.01 * (r - 40) * std::fabs(r - 40.) : 300. / (1 + r) - 5;
        s.push(x + (i / 97) * 0.37, 0.5 + (i * 5) % 3);
        if (i % gap == 0) { s.check(); mc::step(); }
    }
    s.check(); mc::step();
}
static double const thr[] = {1., -1., 2.}; static double const tp[] = {0.5, 0.75, 0.9, 0.2};
template<class LR> void value_words() { by_value<LR> s(mc::pick(thr)); drive(s, mc::depth(5, 7)); }
template<class LR> void value_runs() { by_value<LR> s(mc::pick(thr)); runs(s, mc::depth(100, 400)); }
template<class LR> void prob_words() { double p = mc::pick(tp); by_prob<LR> s(p, 1 + 2 * mc::choose(3)); drive(s, mc::depth(4, 6)); }
template<class LR> void prob_runs() { static int const caps[] = {100, 20, 60}; double p = mc::pick(tp); by_prob<LR> s(p, mc::pick(caps)); runs(s, mc::depth(90, 300)); }

template<class LR> void int_words() { by_value<LR, int> s(mc::pick(thr)); drive(s, mc::depth(5, 6)); }
template<class LR> void int_prob_words() { double p = mc::pick(tp); by_prob<LR, int> s(p, 1 + 2 * mc::choose(3)); drive(s, mc::depth(4, 6)); }
template<class LR> void int_runs() { by_value<LR, int> s(mc::pick(thr)); runs(s, mc::depth(100, 400)); }
template<class LR> void int_prob_runs() { static int const caps[] = {100, 20, 60}; double p = mc::pick(tp); by_prob<LR, int> s(p, mc::pick(caps)); runs(s, mc::depth(90, 300)); }
// the same shapes at other orders of magnitude, and long
template<class LR> void value_scaled()
{
    static double const F[] = {1e-6, 1e6}; double const f = mc::pick(F); by_value<LR> s(mc::pick(thr) * f);
    static double const X[] = {0., 3., -3., 7.5, -8., 4.}; static int const mul[] = {1, 5, 7, 11};
    int const a = mc::pick(mul), N = mc::depth(3000, 70000);
    for (int i = 1; i <= N; ++i) { s.push((X[i * a % 6] + 0.125 * (i * a % 37)) * f, 0.5 + i % 3); if (i < 12 || i % 97 == 0) { s.check(); mc::step(); } }
}
