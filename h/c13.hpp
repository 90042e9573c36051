#pragma once
// C13 (density histograms) and C14 (medians read off a density or a cumulative distribution).
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/density.hpp>
#include <boost/accumulators/statistics/weighted_density.hpp>
#include <boost/accumulators/statistics/p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/median.hpp>
#include <boost/accumulators/statistics/weighted_median.hpp>
using namespace boost::accumulators;
using ref::ld;
typedef std::vector<std::pair<ld, ld> > histo;
template<class R> histo copy_of(R const &r) { histo h; for (auto it = r.begin(); it != r.end(); ++it) h.push_back({(ld)it->first, (ld)it->second}); return h; }
template<class T> struct wtag {};
template<class A, class S> void feed(A &a, S x, double, wtag<void>) { a(x); }
template<class A, class S> void feed(A &a, S x, double w, wtag<double>) { a(x, weight = w); }
template<class A, class S> void feed(A &a, S x, double w, wtag<int>) { a(x, weight = (int)w); }

template<class S, class Wt> struct density_subject {
    typedef accumulator_set<S, stats<tag::density>, Wt> set;
    mc::fresh<set> a; std::size_t cache, bins; std::vector<std::pair<S, ld> > xs; ld W = 0;
    density_subject(std::size_t c, std::size_t b) : cache(c), bins(b) { a.make(density_cache_size = c, density_num_bins = b); mc::note("cache size %zu, %zu bins", c, b); }
    void push(S x, double w) { if (std::is_void<Wt>::value) w = 1; feed(*a, x, w, wtag<Wt>()); xs.push_back({x, w}); W += w; }
    void check()
    {
        if (xs.size() < cache) return;
        histo h = copy_of(density(*a));
        ld mn = xs[0].first, mx = mn; for (std::size_t i = 0; i < cache; ++i) { mn = std::min(mn, (ld)xs[i].first); mx = std::max(mx, (ld)xs[i].first); }
        ld size = (mx - mn) / bins, scale = std::fabs(mn) + std::fabs(mx), eps = std::is_same<S, float>::value ? 1e-5L : 1e-9L, tol = (std::is_same<S, float>::value ? 1e-6L : 1e-12L) * scale;
        for (auto &e : h) { mc::observe((double)e.first); mc::observe((double)e.second); }
        if (h.size() != bins + 2) mc::fail("the histogram has %zu bins, expected %zu", h.size(), bins + 2);
        auto dyadic = [](ld v) { return v == std::floor(v * 4096) / 4096 && std::fabs(v) < 4096; };
        bool const exact = dyadic(mn) && dyadic(size);
        ld cum = 0;
        for (std::size_t i = 0; i < h.size(); ++i) {
            ld edge = mn + ((ld)i - 1) * size;
            mc::check_near("density: lower bound of a bin", (double)h[i].first, edge, tol);
            if (i) {   // everything below this edge, no more, no less
                ld sure = 0, may = 0;
                ld t = (size == 0 || i == 1 || exact) ? 0 : tol;   // edges without rounding leave no doubt
                for (auto &e : xs) { if ((ld)e.first < edge - t) sure += e.second; if ((ld)e.first < edge + t) may += e.second; }
                if (cum * W < sure - eps * W || cum * W > may + eps * W)
                    mc::fail("density: fraction %.12Lg below %.12Lg (bin %zu), expected %.12Lg", cum, edge, i, sure / W);
            }
            cum += h[i].second;
        }
        if (std::fabs(cum - 1) > eps) mc::fail("density: the bins add up to %.12Lg", cum);
    }
    // by the lower bounds as they are reported, to the last bit: a sample lies in a bin unless it is below its
    // lower bound or not below that of the next
    void check_edges()
    {
        check();
        if (xs.size() < cache) return;
        histo h = copy_of(density(*a));
        for (std::size_t i = 0; i < h.size(); ++i) {
            ld in = 0;
            for (auto &e : xs) if ((i == 0 || (ld)e.first >= h[i].first) && (i + 1 == h.size() || (ld)e.first < h[i + 1].first)) in += e.second;
            if (std::fabs(h[i].second * W - in) > 1e-6L * W) mc::fail("density: bin %zu from %.17Lg on holds %.12Lg of the samples, expected %.12Lg", i, h[i].first, h[i].second, in / W);
        }
    }
};
// samples on and just below the bounds that the histogram reports
template<class S, class Wt> void edges()
{
    static double const A[] = {0, 0.1, -0.3, 1. / 3, 1e6 / 7}, R[] = {0.7, 1, 0.3, 1e-3, 1e3 / 3}; static int const N[] = {3, 7, 10, 6, 49};
    S const lo = (S)mc::pick(A), hi = (S)(lo + (S)mc::pick(R)); int const n = mc::pick(N); density_subject<S, Wt> s(mc::choose(2) ? 4 : 2, n);
    mc::note("cached: %.17g .. %.17g", (double)lo, (double)hi);
    s.push(lo, 1); s.push(hi, 2);
    if (s.cache == 4) { s.push((S)(lo + (hi - lo) / n), 1); s.push((S)(lo + (hi - lo) / n * (n - 1)), 2); }
    s.check_edges(); mc::step();
    histo const h = copy_of(density(*s.a));
    for (std::size_t i = 1; i < h.size(); ++i)
        if ((ld)(S)h[i].first == h[i].first) {
            S const x = (S)h[i].first;
            s.push(x, 1); s.push(std::nextafter(x, (S)-1e9), 2); s.push(std::nextafter(x, (S)1e9), 1); s.push(x, 1);
            if (i % 8 == 1 || h.size() < 20) { s.check_edges(); mc::step(); }
        }
    s.check_edges(); mc::step();
}
// [value at level - eps, value at level + eps] of the piecewise linear cumulative distribution
inline ld inv_density(histo const &h, ld level)
{
    ld c = 0;
    for (std::size_t i = 0; i < h.size(); ++i) {
        c += h[i].second;
        if (c >= level && h[i].second > 0) {
            ld over = (c - level) / h[i].second, up = i + 1 < h.size() ? h[i + 1].first : 2 * h[i].first - h[i - 1].first;
            return h[i].first * over + up * (1 - over);
        }
    }
    return h.back().first * 2 - h[h.size() - 2].first;
}
inline ld inv_cumul(histo const &h, ld level)
{
    if (h[0].second >= level) return h[0].first;
    for (std::size_t i = 1; i < h.size(); ++i) if (h[i].second >= level) {
        ld over = (h[i].second - level) / (h[i].second - h[i - 1].second);
        return h[i - 1].first * over + h[i].first * (1 - over);
    }
    return h.back().first;
}
inline ld eps_(ld e) { return e < 1e-9L ? 1e-9L : 10 * e; }
inline void between(char const *what, double got, ld lo, ld hi, histo const &h, ld eps)
{
    mc::observe(got); ld sc = 0; for (auto &e : h) sc = std::max(sc, std::fabs(e.first));
    if (mc::verbose()) mc::note("    %s = %.9g", what, got);
    if (!(got >= lo - eps_(eps) * sc && got <= hi + eps_(eps) * sc)) mc::fail("%s: got %.12g, expected %.12Lg", what, got, lo);
}
// asked for before there is a distribution: no value is claimed, but nothing bad may come of it
inline void early(char const *what, double m, double m2) { mc::observe(m); if (!(m == m2 || (m != m && m2 != m2))) mc::fail("%s: %.12g, then %.12g", what, m, m2); }
template<class S, class Wt> struct median_subject {
    typedef accumulator_set<S, stats<tag::median(with_density), tag::density>, Wt> dset;
    typedef accumulator_set<S, stats<tag::median(with_p_square_cumulative_distribution)>, Wt> cset;
    mc::fresh<dset> a; mc::fresh<cset> b; std::size_t cache, cells, cnt = 0;
    median_subject(std::size_t c, std::size_t n) : cache(c), cells(n)
    {
        a.make(density_cache_size = c, density_num_bins = n); b.make(p_square_cumulative_distribution_num_cells = n);
        mc::note("cache size %zu, %zu bins / cells", c, n);
    }
    void push(S x, double w) { feed(*a, x, w, wtag<Wt>()); feed(*b, x, w, wtag<Wt>()); ++cnt; }
    static constexpr ld E = std::is_same<S, float>::value ? 1e-6L : 1e-12L;
    void check()
    {
        if (cnt >= cache) {
            double m = median(*a); histo h = copy_of(density(*a)); double m2 = median(*a);
            between("median(with_density)", m, inv_density(h, 0.5L - E), inv_density(h, 0.5L + E), h, E);
            if (m != m2) mc::fail("median(with_density): %.12g, then %.12g", m, m2);
        } else early("median(with_density)", median(*a), median(*a));
        if (cnt >= cells + 1) {
            double m = median(*b); histo h = copy_of(p_square_cumulative_distribution(*b)); double m2 = median(*b);
            between("median(with_p_square_cumulative_distribution)", m, inv_cumul(h, 0.5L - E), inv_cumul(h, 0.5L + E), h, E);
            if (m != m2) mc::fail("median(with_p_square_cumulative_distribution): %.12g, then %.12g", m, m2);
        } else early("median(with_p_square_cumulative_distribution)", median(*b), median(*b));
    }
};
static int const caches[] = {2, 1, 3, 5}, nbins[] = {4, 1, 2, 3};
template<class Sub, class S, class Wt> void words()
{
    static S const X[] = {(S)0, (S)4, (S)1, (S)-2, (S)7}; static double const Ws[] = {1., 2., 5.};
    int c = mc::pick(caches), n = mc::pick(nbins); Sub s(c, n); ref::watch w; int D = std::max(c, 2) + mc::depth(2, 3);
    if (D > 6 && !mc::thorough()) D = 6;
    int ws = std::is_void<Wt>::value ? 1 : 1 + mc::choose(3);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int k = i < D ? mc::choose(6) : 0;
        if (!k) break;
        double wt = ws == 1 ? 1. : Ws[(i * (ws - 1)) % 3];
        if (ws == 3 && i % 3 == 1) wt = 0;      // a sample without weight
        mc::note("push %s weight %g", mc::str(X[k - 1]).c_str(), wt);
        s.push(X[k - 1], wt);
    }
    s.check(); mc::step();
}
template<class Sub, class S, class Wt> void runs()
{
    static int const C[] = {10, 3, 50}, N[] = {10, 3, 25, 7}, mul[] = {1, 96, 31, 7}; static double const Ws[] = {1., 0.25, 3.}, F[] = {1, 1e-9, 1e9};
    int c = mc::pick(C), n = mc::pick(N), a = mc::pick(mul), form = mc::choose(4), gap = mc::choose(2) ? 9 : 1; double const f = std::is_floating_point<S>::value ? mc::pick(F) : 1; Sub s(c, n);
    for (int i = 0; i < mc::depth(70, 300); ++i) {
        int r = (i * a) % 97; double x = form == 0 ? r - 48. : form == 1 ? 0.1 * r : form == 2 ? (r * 13) % 11 : 300. / (1 + r) - 5;
        s.push((S)(x * f), std::is_same<Wt, int>::value ? 1 + i % 3 : Ws[(i * 5 + r) % 3]);
        if (i % gap == 0) { s.check(); mc::step(); }
    }
    s.check(); mc::step();
}

// very long histories
template<class Sub, class S, class Wt> void marathon()
{
    static int const C[] = {1, 100, 300}, N[] = {4, 300};
    int c = mc::pick(C), n = mc::pick(N), k = 1 + mc::choose(3); Sub s(c, n);
    for (int i = 1, L = mc::depth(66000, 200000); i <= L; ++i) {
        s.push((S)((long long)i * k % 211), 1 + i % 2);
        if (i == c || i == c + 1 || i == 1000 || i == 65536 || i == L) { s.check(); mc::step(); }
    }
}
