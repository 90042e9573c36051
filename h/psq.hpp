#pragma once
// C10 / C11: the P-square estimators against the published algorithm (Jain and Chlamtac 1985), for
// markers at the given fractions, with positions measured in weight.  The reference is a set of
// states: where the outcome of a comparison depends on rounding (or, with weights, on the order of
// tied initial samples) every outcome is kept, and what the accumulator shows selects among them.
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/median.hpp>
#include <boost/accumulators/statistics/weighted_median.hpp>
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/weighted_p_square_quantile.hpp>
#include <boost/accumulators/statistics/extended_p_square.hpp>
#include <boost/accumulators/statistics/weighted_extended_p_square.hpp>
#include <boost/accumulators/statistics/p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp>
using namespace boost::accumulators;
using ref::ld;
typedef std::vector<double> vd;

struct psq {
    struct state { std::vector<ld> h, n; std::vector<char> ex; };
    std::vector<ld> f;                     // fractions of the markers, 0 .. 1
    bool exact;                            // fractions and weights are dyadic: desired positions carry no rounding
    bool plain_weights = true;             // weights are dyadic: positions carry no rounding
    ld eps;                                // rounding of the heights, relative to scale
    std::vector<state> B; std::vector<std::pair<ld, ld> > first;
    std::size_t cnt = 0; ld W = 0, scale = 1e-300L, lo = 0, hi = 0; mutable bool lost = false;
    psq(std::vector<ld> f_, bool exact_, ld eps_ = 1e-11L) : f(f_), exact(exact_), eps(eps_) {}
    bool ready() const { return cnt >= f.size(); }
    ld ht() const { return eps * scale; }
    ld pt() const { return exact ? 0 : 1e-9L * (1 + W); }

    static bool pow2(ld v) { int e; return v > 0 && std::frexp(v, &e) == 0.5L; }
    static bool short_(ld v) { return std::fabs(v) <= 1024 && v * 256 == std::floor(v * 256); }   // exact in float, with room to spare
    static bool alike(state const &a, state const &b, ld ht)
    {
        for (std::size_t i = 0; i < a.h.size(); ++i) if (std::fabs(a.h[i] - b.h[i]) > ht || std::fabs(a.n[i] - b.n[i]) > 1e-9L) return false;
        return true;
    }
    static void add(std::vector<state> &v, state const &s, ld ht)
    {
        for (auto &t : v) if (alike(t, s, ht)) { for (std::size_t i = 0; i < s.ex.size(); ++i) t.ex[i] = t.ex[i] && s.ex[i]; return; }
        v.push_back(s);
    }
    void begin()
    {
        std::sort(first.begin(), first.end());
        // every order of the weights inside a group of ties
        std::vector<std::vector<ld> > orders(1);
        for (std::size_t i = 0; i < first.size();) {
            std::size_t j = i; std::vector<ld> g;
            while (j < first.size() && first[j].first == first[i].first) g.push_back(first[j++].second);
            std::vector<std::vector<ld> > next;
            std::sort(g.begin(), g.end());
            do { for (auto o : orders) { o.insert(o.end(), g.begin(), g.end()); next.push_back(o); } if (next.size() > 256) { lost = true; return; } } while (std::next_permutation(g.begin(), g.end()));
            orders.swap(next); i = j;
        }
        for (auto &o : orders) {
            state s; ld c = 0;
            for (std::size_t i = 0; i < o.size(); ++i) { c += o[i]; s.h.push_back(first[i].first); s.n.push_back(c); s.ex.push_back(1); }
            B.push_back(s);
        }
        if (B.size() > 256) lost = true;
    }
    void push(ld x, ld w = 1)
    {
        if (!cnt) lo = hi = x;
        lo = std::min(lo, x); hi = std::max(hi, x);
        ++cnt; W += w; scale = std::max(scale, std::fabs(x));
        if (cnt <= f.size()) { first.push_back({x, w}); if (cnt == f.size()) begin(); return; }
        if (lost) return;
        std::size_t M = f.size(); std::vector<state> next;
        for (auto const &s0 : B) {
            state s = s0; std::size_t k0, k1;
            if (x < s.h[0]) { s.h[0] = x; s.n[0] = w; k0 = k1 = 1; }
            else if (x >= s.h[M - 1]) { s.h[M - 1] = x; k0 = k1 = M - 1; }
            else {
                k0 = 0; k1 = 0;
                for (std::size_t i = 0; i < M; ++i) { ld t = s.ex[i] ? 0 : ht(); if (s.h[i] + t <= x) ++k0; if (s.h[i] - t <= x) ++k1; }
                k0 = std::max<std::size_t>(k0, 1); k1 = std::min(k1, M - 1);
            }
            for (std::size_t k = k0; k <= k1; ++k) {
                state t = s;
                for (std::size_t i = k; i < M; ++i) t.n[i] += w;
                std::vector<state> cur(1, t);
                for (std::size_t i = 1; i + 1 < M; ++i) { std::vector<state> out; for (auto const &u : cur) adjust(u, i, out); cur.swap(out); if (cur.size() > 64) { lost = true; return; } }
                for (auto const &u : cur) add(next, u, ht());
                if (lost || next.size() > 256) { lost = true; return; }
            }
        }
        B.swap(next);
    }
    void adjust(state const &s, std::size_t i, std::vector<state> &out) const
    {
        ld d = s.n[0] + (W - s.n[0]) * f[i] - s.n[i], dp = s.n[i + 1] - s.n[i], dm = s.n[i - 1] - s.n[i], t = pt(), u_ = plain_weights ? 0 : t;
        bool may = false, must = false; ld sg = d >= 0 ? 1 : -1;
        if (d >= 1 - t && dp > 1 - u_) { may = true; if (d >= 1 + t && dp > 1 + u_) must = true; }
        if (d <= -1 + t && dm < -1 + u_) { may = true; if (d <= -1 - t && dm < -1 - u_) must = true; }
        if (!must) add(out, s, ht());
        if (!may) return;
        if (dp < 1e-9L || dm > -1e-9L) { lost = true; return; }   // markers that coincide up to rounding: the slope is noise
        ld hp = (s.h[i + 1] - s.h[i]) / dp, hm = (s.h[i - 1] - s.h[i]) / dm;
        ld h = s.h[i] + sg / (dp - dm) * ((sg - dm) * hp + (dp - sg) * hm);
        ld in = std::min(h - s.h[i - 1], s.h[i + 1] - h), ht_ = ht();
        state u = s; u.n[i] += sg;
        if (s.h[i - 1] == s.h[i] && s.h[i] == s.h[i + 1] && s.ex[i - 1] && s.ex[i] && s.ex[i + 1]) { add(out, u, ht()); return; }
        ld const step = sg > 0 ? hp : -hm;
        // no rounding anywhere, whichever way the formula is written: the comparison is not in doubt
        if (s.ex[i - 1] && s.ex[i] && s.ex[i + 1] && plain_weights && pow2(dp) && pow2(-dm) && pow2(dp - dm) && short_(h) && short_(step) && short_(s.n[i]) && short_(dp) && short_(dm)) {
            u.h[i] = in > 0 ? h : s.h[i] + step; add(out, u, ht()); return;
        }
        if (in > -ht_) { u.h[i] = h; u.ex[i] = 0; add(out, u, ht()); }
        if (in < ht_) { u.h[i] = s.h[i] + step; u.ex[i] = s.ex[i] && step == 0; add(out, u, ht()); }
    }
    // keep the states that show the given heights (and cumulated fractions) at the given markers
    void see(char const *what, std::vector<std::size_t> const &at, vd const &h, vd const *cum = 0, ld loose = 1)
    {
        for (double v : h) mc::observe(v);
        if (mc::verbose()) for (std::size_t j = 0; j < h.size(); ++j) mc::note("    %s[%zu] = %.9g%s", what, j, h[j], cum ? (" at " + mc::str((*cum)[j])).c_str() : "");
        ld tol = 4 * ht() * loose;
        if (h.size() != at.size()) { mc::fail("%s returned %zu values, expected %zu", what, h.size(), at.size()); return; }
        for (std::size_t j = 0; j < h.size(); ++j) {
            if (!(h[j] >= lo - tol && h[j] <= hi + tol)) { mc::fail("%s[%zu] = %.12g is outside the range [%.12Lg, %.12Lg] of the samples", what, j, h[j], lo, hi); return; }
            if (j && !(h[j] >= h[j - 1] - tol)) { mc::fail("%s is not in ascending order at %zu", what, j); return; }
        }
        if (lost) { mc::saturated(); return; }
        std::vector<state> keep;
        for (auto const &s : B) {
            bool ok = true;
            for (std::size_t j = 0; ok && j < h.size(); ++j) {
                ok = std::fabs(h[j] - s.h[at[j]]) <= tol;
                if (ok && cum) ok = std::fabs((*cum)[j] - s.n[at[j]] / W) <= 1e-9L * loose;
            }
            if (ok) keep.push_back(s);
        }
        if (keep.empty()) {
            std::string g, e; for (double v : h) g += mc::str(v) + " "; for (std::size_t a : at) e += mc::str((double)B[0].h[a]) + " ";
            if (cum) { g += "at "; for (double v : *cum) g += mc::str(v) + " "; e += "at "; for (std::size_t a : at) e += mc::str((double)(B[0].n[a] / W)) + " "; }
            mc::fail("%s after %zu samples: got %s, expected %s", what, cnt, g.c_str(), e.c_str());
            return;
        }
        B.swap(keep);
    }
};
inline bool dyadic_(double p) { double x = p * 1024; return x == std::floor(x); }

// ---- subjects: one accumulator_set and its reference ------------------------------------------
template<class S, class Wt> struct feed;
template<class S> struct feed<S, void> { template<class A> static void go(A &a, S x, double) { a(x); } };
template<class S> struct feed<S, double> { template<class A> static void go(A &a, S x, double w) { a(x, weight = w); } };
template<class S> struct feed<S, int> { template<class A> static void go(A &a, S x, double w) { a(x, weight = (int)w); } };

template<class S> struct prec { static constexpr ld eps = 1e-11L, loose = 1; };
template<> struct prec<float> { static constexpr ld eps = 2e-6L, loose = 100; };

static double const ps[] = {0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, 0.3, 0.05, 0.95, 0.625, 0.001};

template<class S, class Wt> struct quantile_subject {
    typedef accumulator_set<S, stats<tag::p_square_quantile>, Wt> set;
    typedef accumulator_set<S, stats<tag::median, tag::p_square_quantile>, Wt> both;
    static int menu() { return 8; }
    static int long_menu() { return 12; }
    mc::fresh<set> a; mc::fresh<both> b; psq r, m;
    static std::vector<ld> frac(double p) { return {0, (ld)p / 2, (ld)p, (1 + (ld)p) / 2, 1}; }
    quantile_subject(int k, bool dyadic_weights) : r(frac(ps[k]), dyadic_(ps[k]) && dyadic_weights, prec<S>::eps), m(frac(0.5), dyadic_weights, prec<S>::eps)
    {
        mc::note("p = %g", ps[k]); r.plain_weights = m.plain_weights = dyadic_weights;
        if (k == 0) a.make(); else a.make(quantile_probability = ps[k]);
        b.make(quantile_probability = ps[k]);
    }
    std::size_t init() const { return 5; }
    void push(S x, double w) { feed<S, Wt>::go(*a, x, w); feed<S, Wt>::go(*b, x, w); r.push(x, w); m.push(x, w); }
    void check()
    {
        if (!r.ready()) return;
        std::vector<std::size_t> at{2};
        r.see("p_square_quantile", at, {(double)p_square_quantile(*a)}, 0, prec<S>::loose);
        r.see("p_square_quantile beside median", at, {(double)p_square_quantile(*b)}, 0, prec<S>::loose);
        m.see("median", at, {(double)median(*b)}, 0, prec<S>::loose);
    }
};
static std::vector<vd> const eps_probs = {{0.5}, {0.25, 0.75}, {0.1, 0.5, 0.9}, {0.001, 0.01, 0.5, 0.99, 0.999}, {0.3}, {0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9}, {0.125, 0.25, 0.375, 0.5, 0.75, 0.875, 0.9375}, {0.75}, {0.25}};
template<class S, class Wt> struct extended_subject {
    typedef accumulator_set<S, stats<tag::extended_p_square>, Wt> set;
    static int menu() { return 5; }
    static int long_menu() { return (int)eps_probs.size(); }
    mc::fresh<set> a; psq r; std::vector<std::size_t> at;
    static std::vector<ld> frac(vd const &p)
    {
        std::vector<ld> pr(1, 0); for (double v : p) pr.push_back(v); pr.push_back(1);
        std::vector<ld> f; for (std::size_t i = 0; i < pr.size(); ++i) { if (i) f.push_back((pr[i - 1] + pr[i]) / 2); f.push_back(pr[i]); }
        return f;
    }
    extended_subject(int k, bool dyadic_weights) : r(frac(eps_probs[k]), (k == 0 || k == 1 || k >= 6) && dyadic_weights, prec<S>::eps)
    {
        r.plain_weights = dyadic_weights;
        mc::note("%zu probabilities, the first %g", eps_probs[k].size(), eps_probs[k][0]);
        a.make(extended_p_square_probabilities = eps_probs[k]);
        for (std::size_t i = 1; i <= eps_probs[k].size(); ++i) at.push_back(2 * i);
    }
    std::size_t init() const { return r.f.size(); }
    void push(S x, double w) { feed<S, Wt>::go(*a, x, w); r.push(x, w); }
    void check()
    {
        if (!r.ready()) return;
        auto e = extended_p_square(*a); vd g; for (std::size_t i = 0; i < (std::size_t)e.size(); ++i) g.push_back(e[i]);
        // the range can be walked from its end, too
        std::size_t j = g.size(); for (auto it = e.end(); it != e.begin() && j; ) { --it; --j; if (*it != g[j]) mc::fail("extended_p_square read backwards gives %.12g at %zu, forwards %.12g", (double)*it, j, g[j]); }
        if (j) mc::fail("extended_p_square ends after %zu of %zu values", g.size() - j, g.size());
        r.see("extended_p_square", at, g, 0, prec<S>::loose);
    }
};
static int const cells[] = {4, 1, 2, 3, 7, 10, 16, 64};
template<class S, class Wt> struct cumul_subject {
    typedef accumulator_set<S, stats<tag::p_square_cumulative_distribution>, Wt> set;
    static int menu() { return 5; }
    static int long_menu() { return 8; }
    mc::fresh<set> a; psq r; std::vector<std::size_t> at;
    static std::vector<ld> frac(int b) { std::vector<ld> f; for (int i = 0; i <= b; ++i) f.push_back((ld)i / b); return f; }
    cumul_subject(int k, bool dyadic_weights) : r(frac(cells[k]), (k < 3 || k >= 6) && dyadic_weights, prec<S>::eps)
    {
        r.plain_weights = dyadic_weights;
        mc::note("%d cells", cells[k]);
        a.make(p_square_cumulative_distribution_num_cells = (std::size_t)cells[k]);
        for (int i = 0; i <= cells[k]; ++i) at.push_back(i);
    }
    std::size_t init() const { return r.f.size(); }
    void push(S x, double w) { feed<S, Wt>::go(*a, x, w); r.push(x, w); }
    void check()
    {
        if (!r.ready()) return;
        auto e = p_square_cumulative_distribution(*a); vd h, c; for (auto it = e.begin(); it != e.end(); ++it) { h.push_back(it->first); c.push_back(it->second); }
        r.see("p_square_cumulative_distribution", at, h, &c, prec<S>::loose);
    }
};

// ---- histories ---------------------------------------------------------------------------------
// every word over a small alphabet of samples (x weights)
template<class Sub, class S> void psq_words(std::vector<S> const &X, std::vector<double> const &Ws, int d)
{
    int k = mc::choose(Sub::menu()); Sub s(k, true); ref::watch w;
    int extra = (int)s.init() - 5, D = d; if (extra > 0) D = std::max(d - extra, 0);
    // a long initial phase: its first samples are one of three fixed shapes
    int shape = extra > 0 ? mc::choose(3) : 0;
    for (int i = 0; i < extra; ++i) { S x = (S)(shape == 0 ? i : shape == 1 ? -i : (i * 5) % 7); s.push(x, Ws[i % Ws.size()]); mc::note("push %s", mc::str(x).c_str()); }
    D += extra > 0 ? std::min(extra, 1) : 0;
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int c = i < D ? mc::choose((int)(X.size() * Ws.size()) + (i >= 4)) : -1;
        if (i >= D || c == (int)(X.size() * Ws.size())) break;
        S x = X[c % X.size()]; double wt = Ws[c / X.size()];
        mc::note("push %s weight %g", mc::str(x).c_str(), wt);
        s.push(x, wt);
    }
    s.check(); mc::step();
}
// an initial phase of a chosen shape, then every word over relative positions
template<class Sub, class S> void psq_after(std::vector<double> const &Ws, int d)
{
    static double const X[] = {-3, 0, 1.5, 4, 7.25, 12, 30};
    int k = mc::choose(Sub::menu()); Sub s(k, true); ref::watch w; int shape = mc::choose(4);
    for (std::size_t i = 0; i < s.init(); ++i) {
        S x = (S)(shape == 0 ? 2. * i : shape == 1 ? 8. - 1.5 * i : shape == 2 ? (s.init() > 5 ? (i * 4) % 13 * 1.5 : (i * 7) % 5 * 3.) : s.init() > 5 ? i / 2 * 3. : (i % 2 ? 0. : 10.));
        mc::note("push %s", mc::str(x).c_str());
        s.push(x, Ws[i % Ws.size()]);
    }
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        if (i >= d) break;
        int c = mc::choose(7 * (int)Ws.size());
        mc::note("push %g weight %g", X[c % 7], Ws[c / 7]);
        s.push((S)X[c % 7], Ws[c / 7]);
    }
    s.check(); mc::step();
}
// five samples in ascending order with every combination of weights, then every word: among the positions are many
// where the parabola passes exactly through a neighbour
template<class Sub, class S> void psq_grid(std::vector<S> const &X, std::vector<double> const &Ws, int d, std::vector<int> const &menu)
{
    int const n = (int)X.size(), k = mc::pick(menu); int at = -1; Sub s(k, true);
    auto push = [&](int i, double w) { mc::note("push %s weight %g", mc::str(X[i]).c_str(), w); s.push(X[i], w); };
    for (int i = 0; i < 5; ++i) { at += 1 + mc::choose(n - 1 - at - (4 - i)); push(at, mc::pick(Ws)); }
    for (int i = 0; i < d; ++i) { int c = mc::choose(n * (int)Ws.size()); push(c % n, Ws[c / n]); s.check(); mc::step(); }
}
// steps of 1 and 5, for which the parabola through markers two apart ends on a neighbour
static std::vector<double> const fives{0, 1, 5, 6, 7, 11, 12};
// long runs
template<class Sub, class S> void psq_long(std::vector<double> const &Ws, int len)
{
    static int const mul[] = {1, 96, 31, 7, 53};
    int k = mc::choose(Sub::long_menu()); int a = mc::pick(mul), form = mc::choose(7), gap = mc::choose(2) ? 7 : 1; bool dw = true; for (double w : Ws) dw = dw && dyadic_(w); Sub s(k, dw);
    for (int i = 0; i < len; ++i) {
        int r = (i * a) % 97; double x = form == 0 ? r : form == 1 ? 0.01 * r * r : form == 2 ? (r * 13) % 11 : form == 3 ? 100. / (1 + r) : form == 4 ? -1e-7 * r : form == 5 ? 1e6 * (r - 48) * (r - 48) * (r - 48) : i % 10 ? r - 50 : 1000 * (r - 48);
        s.push((S)x, Ws[(i * 3 + r) % Ws.size()]);
        if (i % gap == 0) { s.check(); mc::step(); }
    }
    s.check(); mc::step();
}

// very long runs, looked at now and then
template<class Sub, class S> void psq_marathon(std::vector<double> const &Ws, int len)
{
    static int const mul[] = {1, 7919};
    int k = mc::choose(Sub::long_menu()), a = mc::pick(mul); bool dw = true; for (double w : Ws) dw = dw && dyadic_(w); Sub s(k, dw);
    for (int i = 1; i <= len; ++i) {
        int r = (int)((long long)i * a % 65521); s.push((S)(r % 1024), Ws[i % Ws.size()]);
        if (i < 30 || i % 61 == 0 || (i & (i - 1)) == 0 || (i & (i + 1)) == 0) { s.check(); mc::step(); }
    }
    s.check(); mc::step();
}
