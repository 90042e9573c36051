#pragma once
// C09: tail quantile, tail means and tail variate means (plain and weighted) against order statistics.
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "ref.hpp"
#include <stdexcept>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/tail_mean.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/tail_variate_means.hpp>
#include <boost/accumulators/statistics/weighted_tail_quantile.hpp>
#include <boost/accumulators/statistics/weighted_tail_mean.hpp>
#include <boost/accumulators/statistics/weighted_tail_variate_means.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
typedef std::vector<double> vec;
using ref::ld;

static double const probs[] = {0.5, 0.25, 0.75, 0.9, 0.05, 0.995, 0., 1.};   // at 0 and 1: no sample at all, or all of them
static bool dyadic(double p) { return p == 0.5 || p == 0.25 || p == 0.75 || p == 0 || p == 1; }
template<class LR> ld level(double p) { return std::is_same<LR, left>::value ? (ld)p : 1 - (ld)p; }

// ceil(count * level): with a level that is not a dyadic fraction both neighbours of an exact
// integer are acceptable (the product is rounded)
template<class LR> std::vector<std::size_t> ranks(std::size_t cnt, double p)
{
    ld z = cnt * level<LR>(p), r = std::floor(z + 0.5L);
    if (std::fabs(z - r) < 1e-9L) { if (dyadic(p)) return {(std::size_t)r}; return {(std::size_t)r, (std::size_t)r + 1}; }
    return {(std::size_t)std::ceil(z)};
}
template<class LR, class X> void sort_tail(std::vector<X> &v)
{
    if (std::is_same<LR, left>::value) std::sort(v.begin(), v.end()); else std::sort(v.begin(), v.end(), std::greater<X>());
}
static bool same(ld got, ld want, ld tol) { if (want != want) return got != got; return std::fabs(got - want) <= tol; }
// the observed value must be one of the acceptable ones
static void one_of(char const *what, double p, double got, std::vector<ld> const &want, ld tol)
{
    mc::observe(got);
    if (mc::verbose()) mc::note("    %s(%g) = %.9g", what, p, got);
    for (ld w : want) if (same(got, w, tol)) return;
    mc::fail("%s at probability %g: got %.12g, expected %.12Lg", what, p, got, want[0]);
}
static ld const NaN = std::numeric_limits<ld>::quiet_NaN();

template<class S, class LR> struct plain {
    typedef accumulator_set<S, stats<tag::tail_quantile<LR> > > q_set;
    typedef accumulator_set<S, stats<tag::non_coherent_tail_mean<LR> > > n_set;
    typedef accumulator_set<S, stats<tag::coherent_tail_mean<LR>, tag::tail_quantile<LR> > > c_set;
    mc::fresh<q_set> a; mc::fresh<n_set> b; mc::fresh<c_set> c;
    std::size_t cap; std::vector<S> xs; ld peak = 0;
    explicit plain(std::size_t n) : cap(n) { a.make(tag::tail<LR>::cache_size = n); b.make(tag::tail<LR>::cache_size = n); c.make(tag::tail<LR>::cache_size = n); }
    void push(S x) { (*a)(x); (*b)(x); (*c)(x); xs.push_back(x); peak = std::max(peak, std::fabs((ld)x)); }
    void check()
    {
        if (xs.empty()) {   // nothing is cached yet: no answer
            if (!std::numeric_limits<S>::has_quiet_NaN) return;
            for (double p : probs) { one_of("tail_quantile of nothing", p, quantile(*a, quantile_probability = p), {NaN}, 0); one_of("tail mean of nothing", p, non_coherent_tail_mean(*b, quantile_probability = p), {NaN}, 0); one_of("coherent tail mean of nothing", p, tail_mean(*c, quantile_probability = p), {NaN}, 0); }
            return;
        }
        std::vector<S> t(xs); sort_tail<LR>(t); if (t.size() > cap) t.resize(cap);
        ld tol = 1e-11L * peak * (xs.size() + 2); if (std::is_same<S, float>::value) tol = 1e-5L * peak * (xs.size() + 2);
        for (double p : probs) {
            std::vector<ld> q, nc, co; bool can_throw = false, must_throw = true;
            for (std::size_t n : ranks<LR>(xs.size(), p)) {
                if (n && n <= t.size()) {
                    ld s = 0; for (std::size_t i = 0; i < n; ++i) s += t[i];
                    q.push_back(t[n - 1]); nc.push_back(s / n);
                    co.push_back(s / n + (ld)t[n - 1] / n * (level<LR>(p) - (ld)n / xs.size()));
                    must_throw = false;
                } else { q.push_back(NaN); nc.push_back(NaN); co.push_back(NaN); can_throw = true; }
            }
            if (std::numeric_limits<S>::has_quiet_NaN) {
                one_of("tail_quantile", p, quantile(*a, quantile_probability = p), q, 0);
                one_of("tail_quantile beside tail mean", p, quantile(*c, quantile_probability = p), q, 0);
                one_of("coherent_tail_mean", p, tail_mean(*c, quantile_probability = p), co, tol);
            } else {
                bool threw = false; double v = 0;
                try { v = quantile(*a, quantile_probability = p); } catch (std::runtime_error const &) { threw = true; }
                mc::observe(threw);
                if (threw && !can_throw) mc::fail("tail_quantile at %g threw although the sample is cached", p);
                if (!threw && must_throw) mc::fail("tail_quantile at %g returned %g although too few samples are cached", p, v);
                if (!threw) one_of("tail_quantile", p, v, q, 0);
                if (!must_throw && !can_throw) one_of("coherent_tail_mean", p, tail_mean(*c, quantile_probability = p), co, tol);
            }
            one_of("non_coherent_tail_mean", p, non_coherent_tail_mean(*b, quantile_probability = p), nc, tol);
            one_of("non_coherent_tail_mean beside quantile", p, non_coherent_tail_mean(*c, quantile_probability = p), nc, tol);
        }
    }
};
// weights and covariates: the definitions evaluated on the cached (sample, weight, covariate) list,
// whose own correctness is C08
template<class LR> struct rich {
    typedef accumulator_set<double, stats<tag::tail_variate_means<LR, vec, tag::covariate1>(absolute)> > va_set;
    typedef accumulator_set<double, stats<tag::tail_variate_means<LR, vec, tag::covariate1>(relative)> > vr_set;
    typedef accumulator_set<double, stats<tag::weighted_tail_quantile<LR> >, double> wq_set;
    typedef accumulator_set<double, stats<tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> >, double> wn_set;
    typedef accumulator_set<double, stats<tag::weighted_tail_variate_means<LR, vec, tag::covariate1>(absolute)>, double> wa_set;
    typedef accumulator_set<double, stats<tag::weighted_tail_variate_means<LR, vec, tag::covariate1>(relative)>, double> wr_set;
    typedef accumulator_set<int, stats<tag::weighted_tail_quantile<LR> >, double> wi_set;
    mc::fresh<va_set> a; mc::fresh<vr_set> b; mc::fresh<wq_set> c; mc::fresh<wn_set> d; mc::fresh<wa_set> e; mc::fresh<wr_set> f; mc::fresh<wi_set> g;
    std::size_t cap, cnt = 0; ld W = 0, peak = 0; double unit = 1;
    explicit rich(std::size_t n) : cap(n)
    {
        a.make(tag::tail<LR>::cache_size = n); b.make(tag::tail<LR>::cache_size = n); c.make(tag::tail<LR>::cache_size = n); d.make(tag::tail<LR>::cache_size = n);
        e.make(tag::tail<LR>::cache_size = n); f.make(tag::tail<LR>::cache_size = n); g.make(tag::tail<LR>::cache_size = n);
    }
    void push(double x, double w, vec const &y)
    {
        (*a)(x, covariate1 = y); (*b)(x, covariate1 = y); (*c)(x, weight = w); (*d)(x, weight = w);
        (*e)(x, weight = w, covariate1 = y); (*f)(x, covariate1 = y, weight = w); (*g)((int)(x / unit), weight = w);
        ++cnt; W += w; peak = std::max(peak, std::fabs((ld)x)); for (double v : y) peak = std::max(peak, std::fabs((ld)v));
    }
    template<class R> void vec_one_of(char const *what, double p, R const &r, std::vector<std::vector<ld> > const &want, ld tol)
    {
        std::vector<double> got(r.begin(), r.end());
        for (double v : got) mc::observe(v);
        for (auto const &w : want) {
            bool ok = w.size() == got.size();
            for (std::size_t i = 0; ok && i < w.size(); ++i) ok = same(got[i], w[i], tol);
            if (ok) return;
        }
        mc::fail("%s at probability %g: got %zu values, first %.12g, expected %.12Lg", what, p, got.size(), got.empty() ? 0. : got[0], want[0][0]);
    }
    // ranks by cumulated weight
    std::vector<std::size_t> wranks(std::vector<double> const &w, double p)
    {
        ld T = W * level<LR>(p), s = 0; std::vector<std::size_t> r;
        if (T == 0) { r.push_back(0); return r; }   // no sample lies in the tail
        for (std::size_t n = 0; n < w.size(); ++n) {
            s += w[n];
            if (std::fabs(s - T) < 1e-9L * W) { r.push_back(n + 1); if (dyadic(p)) return r; continue; }
            if (s > T) { r.push_back(n + 1); return r; }
        }
        r.push_back(0);   // not enough cached: NaN
        return r;
    }
    void check()
    {
        if (!cnt) {   // nothing is cached yet: no answer, and no variates
            for (double p : probs) {
                one_of("weighted tail_quantile of nothing", p, quantile(*c, quantile_probability = p), {NaN}, 0);
                one_of("weighted tail mean of nothing", p, non_coherent_tail_mean(*d, quantile_probability = p), {NaN}, 0);
                for (double v : tail_variate_means(*a, quantile_probability = p)) one_of("tail variate mean of nothing", p, v, {NaN}, 0);
                for (double v : relative_tail_variate_means(*b, quantile_probability = p)) one_of("tail variate mean of nothing", p, v, {NaN}, 0);
                for (double v : weighted_tail_variate_means(*e, quantile_probability = p)) one_of("weighted tail variate mean of nothing", p, v, {NaN}, 0);
                for (double v : relative_weighted_tail_variate_means(*f, quantile_probability = p)) one_of("weighted tail variate mean of nothing", p, v, {NaN}, 0);
            }
            return;
        }
        ld tol = 1e-11L * peak * (cnt + 2);
        for (double p : probs) {
            {   // unweighted tail variate means
                auto t0 = tail(*a); std::vector<double> t(t0.begin(), t0.end());
                auto v0 = tail_variate(*a); std::vector<vec> v(v0.begin(), v0.end());
                std::vector<std::vector<ld> > abs_, rel_; ld worst = 1e30;
                for (std::size_t n : ranks<LR>(cnt, p)) {
                    std::vector<ld> m(2, NaN), q(2, NaN);
                    if (n && n <= t.size()) {
                        ld s = 0; m[0] = m[1] = 0;
                        for (std::size_t i = 0; i < n; ++i) { s += t[i]; m[0] += v[i][0]; m[1] += v[i][1]; }
                        m[0] /= n; m[1] /= n; q[0] = m[0] / (s / n); q[1] = m[1] / (s / n);
                        worst = std::min(worst, std::fabs(s / n));
                    }
                    abs_.push_back(m); rel_.push_back(q);
                }
                vec_one_of("tail_variate_means(absolute)", p, tail_variate_means(*a, quantile_probability = p), abs_, tol);
                if (worst > 1e-3L * unit) vec_one_of("tail_variate_means(relative)", p, relative_tail_variate_means(*b, quantile_probability = p), rel_, tol * 1e3L / unit);
            }
            {   // weighted quantile and tail mean
                auto t0 = tail(*d); std::vector<double> t(t0.begin(), t0.end());
                auto w0 = tail_weights(*d); std::vector<double> w(w0.begin(), w0.end());
                std::vector<ld> q, nc; bool can_throw = false, must_throw = true;
                for (std::size_t n : wranks(w, p)) {
                    if (!n) { q.push_back(NaN); nc.push_back(NaN); can_throw = true; continue; }
                    must_throw = false;
                    ld s = 0, sw = 0; for (std::size_t i = 0; i < n; ++i) { s += (ld)t[i] * w[i]; sw += w[i]; }
                    q.push_back(t[n - 1]); nc.push_back(s / sw);
                }
                if (level<LR>(p) == 0) { q.push_back(t[0]); must_throw = false; }   // nothing, or the most extreme sample
                one_of("weighted_tail_quantile", p, quantile(*c, quantile_probability = p), q, 0);
                one_of("weighted tail_quantile beside tail mean", p, quantile(*d, quantile_probability = p), q, 0);
                one_of("non_coherent_weighted_tail_mean", p, non_coherent_tail_mean(*d, quantile_probability = p), nc, tol);
                bool threw = false; int v = 0;
                try { v = quantile(*g, quantile_probability = p); } catch (std::runtime_error const &) { threw = true; }
                mc::observe(threw);
                if (threw && !can_throw) mc::fail("weighted_tail_quantile<int> at %g threw although the sample is cached", p);
                if (!threw && must_throw) mc::fail("weighted_tail_quantile<int> at %g returned %d although too few samples are cached", p, v);
            }
            {   // weighted tail variate means
                auto t0 = tail(*e); std::vector<double> t(t0.begin(), t0.end());
                auto w0 = tail_weights(*e); std::vector<double> w(w0.begin(), w0.end());
                auto v0 = tail_variate(*e); std::vector<vec> v(v0.begin(), v0.end());
                std::vector<std::vector<ld> > abs_, rel_; ld worst = 1e30;
                for (std::size_t n : wranks(w, p)) {
                    std::vector<ld> m(2, NaN), r(2, NaN);
                    if (n) {
                        ld s = 0, sw = 0; m[0] = m[1] = 0;
                        for (std::size_t i = 0; i < n; ++i) { s += (ld)t[i] * w[i]; sw += w[i]; m[0] += w[i] * v[i][0]; m[1] += w[i] * v[i][1]; }
                        m[0] /= sw; m[1] /= sw; r[0] = m[0] / (s / sw); r[1] = m[1] / (s / sw);
                        worst = std::min(worst, std::fabs(s / sw));
                    }
                    abs_.push_back(m); rel_.push_back(r);
                }
                vec_one_of("weighted_tail_variate_means(absolute)", p, weighted_tail_variate_means(*e, quantile_probability = p), abs_, tol);
                if (worst > 1e-3L * unit) vec_one_of("weighted_tail_variate_means(relative)", p, relative_weighted_tail_variate_means(*f, quantile_probability = p), rel_, tol * 1e3L / unit);
            }
        }
    }
};
template<class S, class LR> void words()
{
    std::size_t c = 1 + mc::choose(4); plain<S, LR> s(c);
    std::vector<S> A = ref::alphabet<S>::get(); A.resize(4);
    ref::watch w; int D = mc::depth(6, 8);
    mc::note("cache size %zu", c);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int k = i < D ? mc::choose((int)A.size() + 1) : 0;
        if (!k) break;
        mc::note("push %s", mc::str(A[k - 1]).c_str());
        s.push(A[k - 1]);
    }
    s.check(); mc::step();
}
template<class S, class LR> void longer()
{
    static int const caps[] = {1, 3, 10, 50, 100}; static int const mul[] = {1, 7, 31, 96};
    std::size_t c = mc::pick(caps); int a = mc::pick(mul), m = 97; plain<S, LR> s(c);
    for (int i = 0; i < mc::depth(110, 300); ++i) { s.push((S)((i * a) % m)); if (i < 12 || i % 5 == 4) { s.check(); mc::step(); } }
}
template<class S, class LR> void marathon()
{
    static int const caps[] = {1, 300, 3000}; static int const mul[] = {1, 7919}; static double const F[] = {1, 1e-9, 1e12};
    std::size_t c = mc::pick(caps); int a = mc::pick(mul); double f = std::is_floating_point<S>::value ? mc::pick(F) : 1; plain<S, LR> s(c);
    for (int i = 1, N = mc::depth(4100, 66000); i <= N; ++i) { s.push((S)(((long long)i * a % 65521 % 1009 - 500) * f)); if (i == 20 || i == 100 || i == 1000 || i == 4096 || i == N) { s.check(); mc::step(); } }
}
template<class LR> void rich_words()
{
    std::size_t c = 1 + mc::choose(3); rich<LR> s(c);
    static double const X[] = {1., -2., 5., 0.}; static double const W[] = {1., 0.5, 3.};
    ref::watch w; int D = mc::depth(4, 5);
    mc::note("cache size %zu", c);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int k = i < D ? mc::choose(13) : 0;
        if (!k) break;
        --k; double x = X[k % 4], wt = W[k / 4];
        mc::note("push %g weight %g", x, wt);
        s.push(x, wt, vec{10. + i, x * x - i});
    }
    s.check(); mc::step();
}
template<class LR> void rich_long()
{
    static int const caps[] = {1, 3, 10, 50}; static int const mul[] = {1, 31, 96}; static double const W[] = {1., 0.5, 2.};
    std::size_t c = mc::pick(caps); int a = mc::pick(mul); int wshape = mc::choose(3); static double const F[] = {1, 1. / (1 << 30), 1 << 30}; double const f = mc::pick(F); rich<LR> s(c); s.unit = f;
    for (int i = 0; i < mc::depth(60, 200); ++i) { int x = (i * a) % 97; s.push(x * f, (wshape == 0 ? 1. : W[(i * wshape) % 3]) * (f == 1 ? 1 : 1 / f), vec{(double)i * f, x * 2. * f}); if (i < 12 || i % 5 == 4) { s.check(); mc::step(); } }
}
