#pragma once
// C20 on the library's own statistics: a statistic gives the same result alone and together with any other one,
// asked for before or after it.
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
using namespace boost::accumulators;
typedef std::vector<double> vec;
inline void put(vec &o, double v) { o.push_back(v); }
template<class A, class B> void put(vec &o, std::pair<A, B> const &p) { put(o, p.first); put(o, p.second); }
template<class It> void put(vec &o, boost::iterator_range<It> const &r) { for (auto it = r.begin(); it != r.end(); ++it) put(o, *it); o.push_back(-777.); }
// a statistic: its name in a declaration, how to read it, from how many samples on
#define STAT(id, need_, expr, ...) struct id { using tag_ = __VA_ARGS__; static int const need = need_; static char const *name() { return #__VA_ARGS__; } \
    template<class S> static vec read(S const &s) { vec o; put(o, expr); return o; } };
inline bool alike(vec const &a, vec const &b, double scale)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || std::fabs(a[i] - b[i]) <= scale * (1 + std::fabs(b[i])))) return false;
    return true;
}
inline std::string show(vec const &v) { std::string s; for (double d : v) s += mc::str(d) + " "; return s; }
static double const symbols[] = {2., -3., 7.5};
typedef void (*case_fn)();
// Params: how sets are made; Weight: double or void
template<class Params, class Weight, class F, class G> void pair_case()
{
    typedef accumulator_set<double, stats<typename F::tag_, typename G::tag_>, Weight> both;
    typedef accumulator_set<double, stats<typename F::tag_>, Weight> only_f;
    typedef accumulator_set<double, stats<typename G::tag_>, Weight> only_g;
    mc::note("%s with %s", F::name(), G::name());
    mc::fresh<both> s; mc::fresh<only_f> f; mc::fresh<only_g> g;
    Params::make(s); Params::make(f); Params::make(g);
    int const n = mc::depth(6, 8);
    // the first three samples are chosen, the others follow from them
    int c[3] = {mc::choose(3), mc::choose(3), mc::choose(3)};
    for (int i = 0; i < n; ++i) {
        double const x = symbols[(i < 3 ? c[i] : c[(i * i) % 3] + i) % 3] + 0.25 * i, w = 1 + (c[i % 3] + i) % 2;
        mc::note("sample %g weight %g", x, w);
        if constexpr (std::is_void<Weight>::value) { (*s)(x); (*f)(x); (*g)(x); }
        else { (*s)(x, weight = w); (*f)(x, weight = w); (*g)(x, weight = w); }
        if (i + 1 >= F::need) {
            vec a = F::read(*s), b = F::read(*f);
            for (double v : a) mc::observe(v);
            if (!alike(a, b, 1e-9)) mc::fail("%s, asked for together with %s after it, gives %s; alone it gives %s", F::name(), G::name(), show(a).c_str(), show(b).c_str());
        }
        if (i + 1 >= G::need) {
            vec a = G::read(*s), b = G::read(*g);
            for (double v : a) mc::observe(v);
            if (!alike(a, b, 1e-9)) mc::fail("%s, asked for together with %s before it, gives %s; alone it gives %s", G::name(), F::name(), show(a).c_str(), show(b).c_str());
        }
        mc::step();
    }
}
template<class P, class W, class F, class G> struct other { static case_fn get() { return pair_case<P, W, F, G>; } };
template<class P, class W, class F> struct other<P, W, F, F> { static case_fn get() { return nullptr; } };
template<class Params, class Weight, class F, class... G> void row(std::vector<case_fn> &out)
{
    case_fn const all[] = { other<Params, Weight, F, G>::get()... };
    for (case_fn c : all) if (c) out.push_back(c);
}
struct no_params { template<class F> static void make(F &f) { f.make(); } };
struct window3 { template<class F> static void make(F &f) { f.make(tag::rolling_window::window_size = 3); } };
static vec const probs = {0.25, 0.5, 0.9};
struct many { template<class F> static void make(F &f) { f.make(right_tail_cache_size = 8, left_tail_cache_size = 8, density_cache_size = 3, density_num_bins = 4, quantile_probability = 0.75, p_square_cumulative_distribution_num_cells = 3, extended_p_square_probabilities = probs); } };
STAT(s_count, 1, count(s), tag::count)
STAT(s_sum, 1, sum(s), tag::sum)
STAT(s_min, 1, (min)(s), tag::min)
STAT(s_mean, 1, mean(s), tag::mean)
STAT(s_imean, 1, mean(s), tag::mean(immediate))
STAT(s_var, 1, variance(s), tag::variance)
STAT(s_lvar, 1, variance(s), tag::variance(lazy))
STAT(s_m2, 1, moment<2>(s), tag::moment<2>)
STAT(s_skew, 3, skewness(s), tag::skewness)
STAT(s_kurt, 3, kurtosis(s), tag::kurtosis)
STAT(s_err, 2, error_of<tag::mean>(s), tag::error_of<tag::mean>)
STAT(s_ierr, 2, error_of<tag::immediate_mean>(s), tag::error_of<tag::immediate_mean>)
STAT(r_count, 1, rolling_count(s), tag::rolling_count)
STAT(r_sum, 1, rolling_sum(s), tag::rolling_sum)
STAT(r_mean, 1, rolling_mean(s), tag::rolling_mean)
STAT(r_lmean, 1, rolling_mean(s), tag::rolling_mean(lazy))
STAT(r_var, 2, rolling_variance(s), tag::rolling_variance)
STAT(r_lvar, 2, rolling_variance(s), tag::rolling_variance(lazy))
STAT(r_m2, 1, rolling_moment<2>(s), tag::rolling_moment<2>)
STAT(q_med, 5, median(s), tag::median)
STAT(q_psq, 5, p_square_quantile(s), tag::p_square_quantile)
STAT(q_ext, 9, extended_p_square(s), tag::extended_p_square)
STAT(q_den, 3, density(s), tag::density)
STAT(q_cum, 4, p_square_cumulative_distribution(s), tag::p_square_cumulative_distribution)
STAT(q_tail, 1, quantile(s, quantile_probability = 0.75), tag::tail_quantile<right>)
STAT(q_ctm, 1, coherent_tail_mean(s, quantile_probability = 0.5), tag::coherent_tail_mean<right>)
STAT(q_nctm, 1, non_coherent_tail_mean(s, quantile_probability = 0.5), tag::non_coherent_tail_mean<right>)
STAT(q_left, 1, tail(s), tag::tail<left>)
#define MOMENTS s_mean, s_imean, s_var, s_lvar, s_m2, s_skew, s_kurt, s_err, s_ierr, s_sum
#define WMOMENTS s_mean, s_imean, s_var, s_lvar, s_m2, s_skew, s_kurt, s_sum, s_count
#define ROLLING r_count, r_sum, r_mean, r_lmean, r_var, r_lvar, r_m2, s_mean, s_var
#define QUANT q_med, q_psq, q_den, q_cum, q_left, s_var, s_min
