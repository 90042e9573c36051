#pragma once
// Kits: accumulator sets that between them hold every statistic of the library, with a uniform way to
// make one, feed it a symbol and read all of its results.  Used by C16 (reading is harmless), C17
// (sets are values), C18 (sets can be saved and loaded).
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "ref.hpp"
#include <functional>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
using namespace boost::accumulators;
typedef std::vector<double> vec;

inline void put(vec &o, double v) { o.push_back(v); }
inline void put(vec &o, vec const &v) { o.insert(o.end(), v.begin(), v.end()); o.push_back(-777.); }
template<class A, class B> void put(vec &o, std::pair<A, B> const &p) { put(o, p.first); put(o, p.second); }
template<class A, class B, class C> void put(vec &o, boost::tuple<A, B, C> const &p) { put(o, boost::get<0>(p)); put(o, boost::get<1>(p)); put(o, boost::get<2>(p)); }
template<class It> void put(vec &o, boost::iterator_range<It> const &r) { for (auto it = r.begin(); it != r.end(); ++it) put(o, *it); o.push_back(-777.); }
template<class M> auto put(vec &o, M const &m) -> decltype((void)m.size1()) { for (std::size_t i = 0; i < m.size1(); ++i) for (std::size_t j = 0; j < m.size2(); ++j) o.push_back(m(i, j)); }

// which set of parameters the next set is made with: two small ones, a large one, one with sizes beyond a byte
inline int &alt() { static int a = 0; return a; }
template<class T> T par(T const &a, T const &b, T const &c) { return alt() >= 2 ? c : alt() ? b : a; }
inline int par(int a, int b, int c) { return alt() == 3 ? c * 8 + 5 : alt() == 2 ? c : alt() ? b : a; }

// need: the number of samples from which on the result means something (it can be read at any time)
template<class Set> struct look { char const *name; std::size_t need; std::function<void(Set const &, vec &)> read; };
#define LOOK(n, ...) { #__VA_ARGS__, n, [](set const &s, vec &o) { put(o, __VA_ARGS__); } }

// symbol and position of a sample -> sample, weight, covariate; all samples of a history are distinct, unless
// plateau() is set.  Symbols from 100 on stand for values found during the execution (say, a result just read).
inline bool &plateau() { static bool a = false; return a; }
inline std::vector<double> &found() { static std::vector<double> v; return v; }
inline double X(int sym, int i) { static double const x[] = {1., -3.5, 8.25}; return sym >= 100 ? found()[sym - 100] : x[sym % 3] + (plateau() ? 0. : i / 128.); }
inline double W(int sym, int i) { static double const w[] = {1., 2., 0.5}; return w[(sym + i * i) % 3]; }
inline double Y(int sym, int i) { return 10. * (sym < 100 ? sym : 3) - i; }

struct plain_feed { template<class S> static void push(S &s, int k, int i) { s(X(k, i)); } };
struct weighted_feed { template<class S> static void push(S &s, int k, int i) { s(X(k, i), weight = W(k, i)); } };
struct variate_feed { template<class S> static void push(S &s, int k, int i) { s(X(k, i), covariate1 = Y(k, i)); } };
struct weighted_variate_feed { template<class S> static void push(S &s, int k, int i) { s(X(k, i), weight = W(k, i), covariate1 = Y(k, i)); } };
struct no_params { template<class F> static void make(F &f) { f.make(); } };
template<class Set> using looks_of = std::vector<look<Set> >;

struct k_basic : plain_feed, no_params {
    typedef accumulator_set<double, stats<tag::count, tag::sum, tag::min, tag::max, tag::mean, tag::variance, tag::skewness, tag::kurtosis, tag::moment<2>, tag::moment<5>, tag::sum_kahan> > set;
    static looks_of<set> looks() { return { LOOK(0, count(s)), LOOK(0, sum(s)), LOOK(1, (min)(s)), LOOK(1, (max)(s)), LOOK(1, mean(s)), LOOK(1, variance(s)), LOOK(2, skewness(s)), LOOK(2, kurtosis(s)), LOOK(1, moment<2>(s)), LOOK(1, moment<5>(s)), LOOK(0, sum_kahan(s)) }; }
};
struct k_lazy : plain_feed, no_params {
    typedef accumulator_set<double, stats<tag::mean(immediate), tag::variance(lazy)> > set;
    static looks_of<set> looks() { return { LOOK(1, mean(s)), LOOK(1, variance(s)), LOOK(0, count(s)) }; }
};
struct k_error : plain_feed, no_params {
    typedef accumulator_set<double, stats<tag::error_of<tag::mean>, tag::error_of<tag::immediate_mean> > > set;
    static looks_of<set> looks() { return { LOOK(2, error_of<tag::mean>(s)), LOOK(2, error_of<tag::immediate_mean>(s)), LOOK(1, mean(s)), LOOK(1, variance(s)) }; }
};
struct k_weighted : weighted_feed, no_params {
    typedef accumulator_set<double, stats<tag::count, tag::sum, tag::sum_of_weights, tag::min, tag::max, tag::mean(immediate), tag::variance, tag::moment<3>, tag::mean_of_weights, tag::sum_of_weights_kahan>, double> set;
    static looks_of<set> looks() { return { LOOK(0, count(s)), LOOK(0, sum(s)), LOOK(0, sum_of_weights(s)), LOOK(1, (min)(s)), LOOK(1, (max)(s)), LOOK(1, mean(s)), LOOK(1, variance(s)), LOOK(1, moment<3>(s)), LOOK(1, mean_of_weights(s)), LOOK(0, sum_of_weights_kahan(s)) }; }
};
struct k_weighted_lazy : weighted_feed, no_params {
    typedef accumulator_set<double, stats<tag::mean, tag::variance(lazy), tag::skewness, tag::kurtosis, tag::weighted_sum_kahan>, double> set;
    static looks_of<set> looks() { return { LOOK(1, mean(s)), LOOK(1, variance(s)), LOOK(2, skewness(s)), LOOK(2, kurtosis(s)), LOOK(0, weighted_sum_kahan(s)) }; }
};
struct k_variates : variate_feed, no_params {
    typedef accumulator_set<double, stats<tag::covariance<double, tag::covariate1>, tag::mean_of_variates<double, tag::covariate1>, tag::sum_of_variates<double, tag::covariate1> > > set;
    static looks_of<set> looks() { return { LOOK(1, covariance(s)), LOOK(1, (mean_of_variates<double, tag::covariate1>(s))), LOOK(0, sum_of_variates(s)), LOOK(1, mean(s)) }; }
};
struct k_weighted_variates : weighted_variate_feed, no_params {
    typedef accumulator_set<double, stats<tag::covariance<double, tag::covariate1>, tag::mean_of_variates<double, tag::covariate1>(immediate)>, double> set;
    static looks_of<set> looks() { return { LOOK(1, covariance(s)), LOOK(1, weighted_mean_of_variates<double, tag::covariate1>(s)), LOOK(1, mean(s)), LOOK(0, sum_of_weights(s)) }; }
};
struct k_rolling : plain_feed {
    typedef accumulator_set<double, stats<tag::rolling_sum, tag::rolling_count, tag::rolling_mean, tag::rolling_variance, tag::rolling_moment<2>, tag::rolling_moment<3>, tag::rolling_window> > set;
    template<class F> static void make(F &f) { f.make(tag::rolling_window::window_size = par(4, 2, 37)); }
    static looks_of<set> looks() { return { LOOK(0, rolling_sum(s)), LOOK(0, rolling_count(s)), LOOK(1, rolling_mean(s)), LOOK(2, rolling_variance(s)), LOOK(1, rolling_moment<2>(s)), LOOK(1, rolling_moment<3>(s)), LOOK(0, rolling_window(s)) }; }
};
struct k_rolling_lazy : plain_feed {
    typedef accumulator_set<double, stats<tag::rolling_mean(lazy), tag::rolling_variance(lazy)> > set;
    template<class F> static void make(F &f) { f.make(tag::rolling_window::window_size = par(3, 5, 40)); }
    static looks_of<set> looks() { return { LOOK(1, rolling_mean(s)), LOOK(2, rolling_variance(s)), LOOK(0, rolling_sum(s)), LOOK(0, rolling_count(s)) }; }
};
template<class LR> struct k_tail : variate_feed {
    typedef accumulator_set<double, stats<tag::tail_variate<double, tag::covariate1, LR>, tag::coherent_tail_mean<LR>, tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> > > set;
    template<class F> static void make(F &f) { f.make(tag::tail<LR>::cache_size = par(5, 2, 33)); }
    static looks_of<set> looks() { return { LOOK(0, tail(s)), LOOK(0, tail_variate(s)), LOOK(1, quantile(s, quantile_probability = 0.25)), LOOK(1, quantile(s, quantile_probability = 0.75)), LOOK(1, coherent_tail_mean(s, quantile_probability = 0.5)), LOOK(1, non_coherent_tail_mean(s, quantile_probability = 0.5)),
        LOOK(1, std::make_pair(quantile(s, quantile_probability = 0.1), quantile(s, quantile_probability = 0.9))), LOOK(1, std::make_pair(coherent_tail_mean(s, quantile_probability = 0.1), non_coherent_tail_mean(s, quantile_probability = 0.9))) }; }
};
struct vec_variate_feed { template<class S> static void push(S &s, int k, int i) { vec const y{Y(k, i), 1. + k}; s(X(k, i), covariate1 = y); } };
struct weighted_vec_variate_feed { template<class S> static void push(S &s, int k, int i) { vec const y{Y(k, i), 1. + k}; s(X(k, i), weight = W(k, i), covariate1 = y); } };
struct k_tail_means : vec_variate_feed {
    typedef accumulator_set<double, stats<tag::tail_variate_means<right, vec, tag::covariate1>(absolute)> > set;
    template<class F> static void make(F &f) { f.make(tag::tail<right>::cache_size = par(6, 3, 35)); }
    static looks_of<set> looks() { return { LOOK(1, tail_variate_means(s, quantile_probability = 0.5)), LOOK(1, tail_variate_means(s, quantile_probability = 0.75)), LOOK(1, tail_variate_means(s, quantile_probability = 0.9)), LOOK(0, tail(s)), LOOK(0, tail_variate(s)) }; }
};
struct k_weighted_tail : weighted_feed {
    typedef accumulator_set<double, stats<tag::tail_quantile<right>, tag::non_coherent_tail_mean<right>, tag::sum>, double> set;
    template<class F> static void make(F &f) { f.make(tag::tail<right>::cache_size = par(6, 3, 35)); }
    static looks_of<set> looks() { return { LOOK(0, tail(s)), LOOK(0, tail_weights(s)), LOOK(1, quantile(s, quantile_probability = 0.5)), LOOK(1, non_coherent_tail_mean(s, quantile_probability = 0.75)), LOOK(1, std::make_pair(quantile(s, quantile_probability = 0.9), non_coherent_tail_mean(s, quantile_probability = 0.95))) }; }
};
struct k_weighted_tail_means : weighted_vec_variate_feed {
    typedef accumulator_set<double, stats<tag::tail_variate_means<left, vec, tag::covariate1>(relative)>, double> set;
    template<class F> static void make(F &f) { f.make(tag::tail<left>::cache_size = par(6, 3, 35)); }
    static looks_of<set> looks() { return { LOOK(1, relative_weighted_tail_variate_means(s, quantile_probability = 0.5)), LOOK(1, relative_weighted_tail_variate_means(s, quantile_probability = 0.1)), LOOK(0, tail(s)), LOOK(0, tail_weights(s)), LOOK(0, tail_variate(s)) }; }
};
static vec const probabilities = {0.25, 0.5, 0.9}, probabilities2 = {0.3, 0.6}, probabilities3 = {0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.9, 0.95};
struct k_psquare : plain_feed {
    typedef accumulator_set<double, stats<tag::p_square_quantile, tag::median, tag::extended_p_square_quantile, tag::p_square_cumulative_distribution> > set;
    template<class F> static void make(F &f) { f.make(quantile_probability = par(0.75, 0.2, 0.9), extended_p_square_probabilities = par(probabilities, probabilities2, probabilities3), p_square_cumulative_distribution_num_cells = par(4, 2, 19)); }
    static looks_of<set> looks() { return { LOOK(5, p_square_quantile(s)), LOOK(5, median(s)), LOOK(9, extended_p_square(s)), LOOK(9, quantile(s, quantile_probability = 0.6)), LOOK(9, quantile(s, quantile_probability = 0.3)), LOOK(5, p_square_cumulative_distribution(s)) }; }
};
struct k_psquare_quad : plain_feed {
    typedef accumulator_set<double, stats<tag::median(with_p_square_cumulative_distribution), tag::extended_p_square_quantile(quadratic)> > set;
    template<class F> static void make(F &f) { f.make(extended_p_square_probabilities = par(probabilities, probabilities2, probabilities3), p_square_cumulative_distribution_num_cells = par(3, 2, 20)); }
    static looks_of<set> looks() { return { LOOK(4, median(s)), LOOK(9, quantile(s, quantile_probability = 0.6)), LOOK(9, quantile(s, quantile_probability = 0.3)), LOOK(4, p_square_cumulative_distribution(s)) }; }
};
struct k_weighted_psquare : weighted_feed {
    typedef accumulator_set<double, stats<tag::p_square_quantile, tag::median, tag::extended_p_square_quantile, tag::p_square_cumulative_distribution>, double> set;
    template<class F> static void make(F &f) { f.make(quantile_probability = par(0.75, 0.2, 0.9), extended_p_square_probabilities = par(probabilities, probabilities2, probabilities3), p_square_cumulative_distribution_num_cells = par(4, 2, 19)); }
    static looks_of<set> looks() { return { LOOK(5, weighted_p_square_quantile(s)), LOOK(5, weighted_median(s)), LOOK(9, weighted_extended_p_square(s)), LOOK(9, quantile(s, quantile_probability = 0.6)), LOOK(5, weighted_p_square_cumulative_distribution(s)) }; }
};
struct k_density : plain_feed {
    typedef accumulator_set<double, stats<tag::density, tag::median(with_density)> > set;
    template<class F> static void make(F &f) { f.make(density_cache_size = par(3, 2, 34), density_num_bins = par(4, 6, 36)); }
    static looks_of<set> looks() { return { LOOK(3, density(s)), LOOK(3, median(s)), LOOK(1, (min)(s)), LOOK(1, (max)(s)) }; }
};
struct k_weighted_density : weighted_feed {
    typedef accumulator_set<double, stats<tag::density, tag::median(with_density)>, double> set;
    template<class F> static void make(F &f) { f.make(density_cache_size = par(3, 2, 34), density_num_bins = par(4, 6, 36)); }
    static looks_of<set> looks() { return { LOOK(3, weighted_density(s)), LOOK(3, weighted_median(s)), LOOK(1, (min)(s)), LOOK(1, (max)(s)) }; }
};
struct k_weighted_cumul : weighted_feed {
    typedef accumulator_set<double, stats<tag::median(with_p_square_cumulative_distribution), tag::extended_p_square_quantile(quadratic)>, double> set;
    template<class F> static void make(F &f) { f.make(extended_p_square_probabilities = par(probabilities, probabilities2, probabilities3), p_square_cumulative_distribution_num_cells = par(3, 2, 20)); }
    static looks_of<set> looks() { return { LOOK(4, weighted_median(s)), LOOK(9, quantile(s, quantile_probability = 0.6)), LOOK(4, weighted_p_square_cumulative_distribution(s)) }; }
};
template<class LR> struct k_pot : plain_feed {
    typedef accumulator_set<double, stats<tag::pot_tail_mean<LR>(with_threshold_value)> > set;
    template<class F> static void make(F &f) { f.make(tag::peaks_over_threshold<LR>::threshold_value = par(0.5, -1., 2.)); }
    static looks_of<set> looks() { return { LOOK(1, peaks_over_threshold(s)), LOOK(1, quantile(s, quantile_probability = 0.9)), LOOK(1, tail_mean(s, quantile_probability = 0.9)) }; }
};
template<class LR> struct k_pot_prob : plain_feed {
    typedef accumulator_set<double, stats<tag::pot_tail_mean<LR>(with_threshold_probability)> > set;
    template<class F> static void make(F &f) { f.make(tag::tail<LR>::cache_size = par(8, 3, 50), tag::peaks_over_threshold_prob<LR>::threshold_probability = par(0.5, 0.7, 0.6)); }
    static looks_of<set> looks() { return { LOOK(1, peaks_over_threshold(s)), LOOK(1, quantile(s, quantile_probability = 0.9)), LOOK(1, tail_mean(s, quantile_probability = 0.9)), LOOK(0, tail(s)) }; }
};
struct k_weighted_pot : weighted_feed {
    typedef accumulator_set<double, stats<tag::pot_tail_mean<right>(with_threshold_value)>, double> set;
    template<class F> static void make(F &f) { f.make(tag::peaks_over_threshold<right>::threshold_value = par(0.5, -1., 2.)); }
    static looks_of<set> looks() { return { LOOK(1, peaks_over_threshold(s)), LOOK(1, quantile(s, quantile_probability = 0.9)), LOOK(1, tail_mean(s, quantile_probability = 0.9)) }; }
};
struct k_weighted_pot_prob : weighted_feed {
    typedef accumulator_set<double, stats<tag::pot_tail_mean<left>(with_threshold_probability)>, double> set;
    template<class F> static void make(F &f) { f.make(tag::tail<left>::cache_size = par(8, 3, 50), tag::peaks_over_threshold_prob<left>::threshold_probability = par(0.5, 0.7, 0.6)); }
    static looks_of<set> looks() { return { LOOK(1, peaks_over_threshold(s)), LOOK(1, quantile(s, quantile_probability = 0.1)), LOOK(1, tail_mean(s, quantile_probability = 0.1)), LOOK(0, tail(s)) }; }
};
struct vector_feed { template<class S> static void push(S &s, int k, int i) { s(vec{X(k, i), Y(k, i)}); } };
struct k_vector : vector_feed {
    typedef accumulator_set<vec, stats<tag::sum, tag::mean(immediate), tag::variance, tag::moment<2> > > set;
    template<class F> static void make(F &f) { static vec const zero(2, 0.); f.make(sample = zero); }
    static looks_of<set> looks() { return { LOOK(0, sum(s)), LOOK(1, mean(s)), LOOK(1, variance(s)), LOOK(1, moment<2>(s)) }; }
};

// compensated sums: samples that cancel, so that what the compensation holds shows
inline double KX(int sym, int i) { return sym >= 100 ? found()[sym - 100] : sym % 3 == 1 ? 1. : sym % 3 == 2 ? -3. : i % 2 ? -1e16 : 1e16; }
struct k_kahan : no_params {
    typedef accumulator_set<double, stats<tag::sum_kahan, tag::sum_of_variates_kahan<double, tag::covariate1> > > set;
    template<class S> static void push(S &s, int k, int i) { s(KX(k, i), covariate1 = KX((k + 1) % 3, i)); }
    static looks_of<set> looks() { return { LOOK(0, sum_kahan(s)), LOOK(0, sum_of_variates_kahan(s)) }; }
};
struct k_weighted_kahan : no_params {
    typedef accumulator_set<double, stats<tag::weighted_sum_kahan, tag::sum_of_weights_kahan, tag::weighted_sum_of_variates_kahan<double, tag::covariate1> >, double> set;
    template<class S> static void push(S &s, int k, int i) { s(KX(k, i), weight = KX((k + 2) % 3, i), covariate1 = 1. / 3); }
    static looks_of<set> looks() { return { LOOK(0, weighted_sum_kahan(s)), LOOK(0, sum_of_weights_kahan(s)), LOOK(0, weighted_sum_of_variates_kahan(s)) }; }
};
// samples of other types
struct k_int : no_params {
    typedef accumulator_set<int, stats<tag::sum, tag::min, tag::max, tag::mean(immediate), tag::variance, tag::moment<2>, tag::sum_kahan> > set;
    template<class S> static void push(S &s, int k, int i) { s((int)(8 * X(k, i))); }
    static looks_of<set> looks() { return { LOOK(0, count(s)), LOOK(0, sum(s)), LOOK(1, (min)(s)), LOOK(1, (max)(s)), LOOK(1, mean(s)), LOOK(1, variance(s)), LOOK(1, moment<2>(s)), LOOK(0, sum_kahan(s)) }; }
};
struct k_int_rolling {
    typedef accumulator_set<int, stats<tag::rolling_mean, tag::rolling_variance, tag::rolling_moment<2>, tag::rolling_sum, tag::rolling_count, tag::rolling_window> > set;
    template<class F> static void make(F &f) { f.make(tag::rolling_window::window_size = par(3, 2, 41)); }
    template<class S> static void push(S &s, int k, int i) { s((int)(8 * X(k, i))); }
    static looks_of<set> looks() { return { LOOK(0, rolling_sum(s)), LOOK(0, rolling_count(s)), LOOK(1, rolling_mean(s)), LOOK(2, rolling_variance(s)), LOOK(1, rolling_moment<2>(s)), LOOK(0, rolling_window(s)) }; }
};
// vectors: covariance matrix
struct k_vector_variates {
    typedef accumulator_set<vec, stats<tag::covariance<vec, tag::covariate1>, tag::sum_of_variates<vec, tag::covariate1> > > set;
    template<class F> static void make(F &f) { static vec const zero(2, 0.), zero3(3, 0.); f.make(sample = zero, covariate1 = zero3); }
    template<class S> static void push(S &s, int k, int i) { vec const x{X(k, i), W(k, i)}, y{Y(k, i), X(k < 100 ? k + 1 : k, i), 1. + k}; s(x, covariate1 = y); }
    static looks_of<set> looks() { return { LOOK(1, covariance(s)), LOOK(0, sum_of_variates(s)), LOOK(1, mean(s)) }; }
};
struct k_weighted_tail_left : weighted_feed {
    typedef accumulator_set<double, stats<tag::tail_quantile<left>, tag::non_coherent_tail_mean<left> >, double> set;
    template<class F> static void make(F &f) { f.make(tag::tail<left>::cache_size = par(6, 3, 35)); }
    static looks_of<set> looks() { return { LOOK(0, tail(s)), LOOK(0, tail_weights(s)), LOOK(1, quantile(s, quantile_probability = 0.5)), LOOK(1, non_coherent_tail_mean(s, quantile_probability = 0.25)), LOOK(1, quantile(s, quantile_probability = 0.1)) }; }
};

// ---- comparing --------------------------------------------------------------------------------
inline bool alike(vec const &a, vec const &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(a[i])))) return false;
    return true;
}
inline std::string show(vec const &v) { std::string s; for (double d : v) s += mc::str(d) + " "; return s; }
// a symbol and its position
typedef std::vector<std::pair<int, int> > history;
template<class K> void replay_into(mc::fresh<typename K::set> &f, history const &h) { K::make(f); for (auto &e : h) K::push(*f, e.first, e.second); }
// all results of s, against a set that was fed h and never read before
template<class K> void same_as_fresh(char const *who, typename K::set const &s, history const &h, std::size_t from = 0)
{
    static auto const L = K::looks();
    mc::fresh<typename K::set> f; replay_into<K>(f, h);
    for (std::size_t j = 0; j < L.size(); ++j) {
        auto const &l = L[(j + from) % L.size()];
        vec a, b; l.read(s, a); l.read(*f, b);
        for (double v : a) mc::observe(v);
        if (!alike(a, b)) mc::fail("%s: %s gives %s; a set fed the same samples gives %s", who, l.name, show(a).c_str(), show(b).c_str());
    }
}
