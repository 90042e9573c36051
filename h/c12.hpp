#pragma once
// C12: quantiles interpolated between the extended P-square markers.
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/extended_p_square.hpp>
#include <boost/accumulators/statistics/weighted_extended_p_square.hpp>
#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
using namespace boost::accumulators;
using ref::ld;
typedef std::vector<double> vd;
static std::vector<vd> const lists = {{0.25, 0.5, 0.75}, {0.5}, {0.25, 0.75}, {0.001, 0.01, 0.5, 0.99, 0.999}, {0.990, 0.991, 0.993, 0.997}, {0.1, 0.2, 0.4, 0.8}, {0.05, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 0.95}, {0.125, 0.25, 0.375, 0.5, 0.625}};

template<class T> struct mc_void_tag {};
template<class S, class Wt> struct subject {
    typedef accumulator_set<S, stats<tag::extended_p_square_quantile, tag::extended_p_square>, Wt> lin_set;
    typedef accumulator_set<S, stats<tag::extended_p_square_quantile(quadratic)>, Wt> quad_set;
    mc::fresh<lin_set> a; mc::fresh<quad_set> b; vd const &P; std::size_t cnt = 0;
    explicit subject(vd const &p) : P(p) { a.make(extended_p_square_probabilities = p); b.make(extended_p_square_probabilities = p); mc::note("%zu probabilities from %g", p.size(), p[0]); }
    template<class A> static void feed(A &s, S x, double, mc_void_tag<void>) { s(x); }
    template<class A> static void feed(A &s, S x, double w, mc_void_tag<double>) { s(x, weight = w); }
    void push(S x, double w) { feed(*a, x, w, mc_void_tag<Wt>()); feed(*b, x, w, mc_void_tag<Wt>()); ++cnt; }
    template<class A> static vd heights(A const &s) { auto e = extended_p_square(s); vd h; for (std::size_t i = 0; i < (std::size_t)e.size(); ++i) h.push_back(e[i]); return h; }
    void ask(double q)
    {
        vd h = heights(*a), h2 = heights(*b);
        double l = quantile(*a, quantile_probability = q), c = quantile(*b, quantile_probability = q);
        mc::observe(l); mc::observe(c);
        if (mc::verbose()) mc::note("    quantile(%g): linear %.9g, quadratic %.9g", q, l, c);
        if (h != h2) mc::fail("the two variants have different markers");
        if (!(heights(*a) == h)) mc::fail("asking for a quantile changed the markers");
        if (q < P.front() || q > P.back()) {
            if (l == l || c == c) mc::fail("quantile at %g, outside [%g, %g]: got %g and %g, expected NaN", q, P.front(), P.back(), l, c);
            return;
        }
        std::size_t i = std::lower_bound(P.begin(), P.end(), q) - P.begin();
        if (P[i] == q) { mc::check_eq("quantile at a tracked probability (linear)", l, h[i]); mc::check_eq("quantile at a tracked probability (quadratic)", c, h[i]); return; }
        ld top = 0; for (double v : h) top = std::max(top, std::fabs((ld)v));
        ld lin = h[i - 1] + ((ld)h[i] - h[i - 1]) * ((ld)q - P[i - 1]) / ((ld)P[i] - P[i - 1]);
        ld d = P.size() > 1 ? 1 : 1; for (std::size_t k = 1; k < P.size(); ++k) d = std::min(d, (ld)P[k] - P[k - 1]);
        mc::check_near("quantile (linear)", l, lin, 1e-13L * top / d);
        std::vector<ld> want;
        if (P.size() < 3) want.push_back(lin);
        else {
            ld up = (ld)P[i] - q, dn = (ld)q - P[i - 1]; bool tie = std::fabs(up - dn) < 1e-12L;
            bool can_up = i + 1 < P.size(), can_dn = i >= 2;
            if (can_up && (!can_dn || up <= dn || tie)) want.push_back(par(h, i - 1, q));
            if (can_dn && (!can_up || up > dn || tie)) want.push_back(par(h, i - 2, q));
        }
        for (ld w : want) if (std::fabs(c - w) <= 1e-12L * top / (d * d)) return;
        mc::fail("quantile (quadratic) at %g: got %.12g, expected %.12Lg", q, c, want[0]);
    }
    ld par(vd const &h, std::size_t j, ld q)
    {
        ld p0 = P[j], p1 = P[j + 1], p2 = P[j + 2];
        return h[j] * (q - p1) * (q - p2) / ((p0 - p1) * (p0 - p2)) + h[j + 1] * (q - p0) * (q - p2) / ((p1 - p0) * (p1 - p2)) + h[j + 2] * (q - p0) * (q - p1) / ((p2 - p0) * (p2 - p1));
    }
    vd questions() const
    {
        vd q; q.push_back(P.front() * 0.5); q.push_back(P.front() - 1e-6); q.push_back(P.back() + 1e-6); q.push_back((1 + P.back()) / 2); q.push_back(0.); q.push_back(1.);
        for (std::size_t i = 0; i < P.size(); ++i) { q.push_back(P[i]); if (i) for (double t : {0.03, 0.25, 0.5, 0.75, 0.97}) q.push_back(P[i - 1] + t * (P[i] - P[i - 1])); }
        return q;
    }
    void ask_all() { if (cnt < 2 * P.size() + 3) return; for (double q : questions()) ask(q); }
};
template<class S, class Wt> void short_runs()
{
    subject<S, Wt> s(mc::pick(lists)); int shape = mc::choose(4); static double const X[] = {-3, 0, 1.5, 4, 7.25, 12, 30};
    std::size_t init = 2 * s.P.size() + 3;
    for (std::size_t i = 0; i < init; ++i) s.push((S)(shape == 0 ? 2. * i : shape == 1 ? 8. - 1.5 * i : shape == 2 ? (i * 7) % 5 * 3. : 5.), 1 + i % 2);
    int D = mc::depth(3, 4);
    for (int i = 0; ; ++i) { s.ask_all(); mc::step(); if (i == D) break; double x = mc::pick(X); mc::note("push %g", x); s.push((S)x, 1 + i % 3); }
}
// two questions in a row, in every order
template<class S, class Wt> void pairs()
{
    subject<S, Wt> s(mc::pick(lists)); int shape = mc::choose(3); std::size_t init = 2 * s.P.size() + 3;
    for (std::size_t i = 0; i < init + 3; ++i) s.push((S)(shape == 0 ? 2. * i : shape == 1 ? 8. - 1.5 * i : (i * 7) % 5 * 3.), 1 + i % 2);
    vd q = s.questions(); double u = mc::pick(q), v = mc::pick(q); s.ask(u); s.ask(v); mc::step();
}
template<class S, class Wt> void long_runs()
{
    subject<S, Wt> s(mc::pick(lists)); static int const mul[] = {1, 96, 31, 7, 53}; int a = mc::pick(mul), form = mc::choose(6);
    for (int i = 0; i < mc::depth(120, 600); ++i) {
        int r = (i * a) % 97; double x = form == 0 ? r : form == 1 ? 0.01 * r * r : form == 2 ? (r * 13) % 11 : form == 3 ? 100. / (1 + r) : form == 4 ? -1e-7 * (r + 1) : 1e6 * (r - 48) * (r - 48) * (r - 48);
        s.push((S)x, 0.5 + r % 3);
        if (i % 7 == 6) { s.ask_all(); mc::step(); }
    }
}
