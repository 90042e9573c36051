#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
// C21: weights kept outside, for the rest of the weighted statistics and for other types.
using namespace boost::accumulators;
static double const xs[] = {3., -1.5, 8.};
static double const ws[] = {1., 2., 0.5};
static void same(char const *what, double got, double want) { mc::check_near(what, got, want, 1e-6L * (1 + std::fabs(want))); }
#define W weights = w
static double const probs_[] = {0.25, 0.5, 0.75};
static std::vector<double> const probs(probs_, probs_ + 3);
struct streams {
    typedef stats<tag::weighted_p_square_quantile, tag::weighted_extended_p_square, tag::weighted_p_square_cumulative_distribution> f;
    static bool const reads = true; static double cov(int k) { return k; }
    static int const min_n = 5;
    template<class E, class I, class WS> static void check(E const &e, I const &i, WS const &w)
    {
        same("p_square quantile", weighted_p_square_quantile(e, W), weighted_p_square_quantile(i));
        for (int k = 0; k < 3; ++k) same("extended", weighted_extended_p_square(e, W)[k], weighted_extended_p_square(i)[k]);
        auto const a = weighted_p_square_cumulative_distribution(e, W), b = weighted_p_square_cumulative_distribution(i);
        mc::check_eq("size of the distribution", (int)a.size(), (int)b.size());
        for (int k = 0; k < (int)a.size(); ++k) { same("distribution at", a[k].first, b[k].first); same("distribution", a[k].second, b[k].second); }
    }
};
struct histogram {
    typedef stats<tag::weighted_density, tag::with_density_weighted_median> f;
    static bool const reads = true; static double cov(int k) { return k; }
    static int const min_n = 5;
    template<class E, class I, class WS> static void check(E const &e, I const &i, WS const &w)
    {
        auto const a = weighted_density(e, W), b = weighted_density(i);
        mc::check_eq("bins", (int)a.size(), (int)b.size());
        for (int k = 0; k < (int)a.size(); ++k) { same("bin at", a[k].first, b[k].first); same("share", a[k].second, b[k].second); }
        same("median", weighted_median(e, W), weighted_median(i));
    }
};
struct medians {
    typedef stats<tag::weighted_median> f;
    static bool const reads = true; static double cov(int k) { return k; }
    static int const min_n = 5;
    template<class E, class I, class WS> static void check(E const &e, I const &i, WS const &w)
    {
        same("median", weighted_median(e, W), weighted_median(i));
    }
};
struct cumul_median {
    typedef stats<tag::with_p_square_cumulative_distribution_weighted_median> f;
    static bool const reads = true; static double cov(int k) { return k; }
    static int const min_n = 5;
    template<class E, class I, class WS> static void check(E const &e, I const &i, WS const &w)
    {
        same("median", weighted_median(e, W), weighted_median(i));
    }
};
struct tails {
    typedef stats<tag::weighted_tail_quantile<left>, tag::non_coherent_weighted_tail_mean<left>, tag::absolute_weighted_tail_variate_means<left, std::vector<double>, tag::covariate1>, tag::relative_weighted_tail_variate_means<left, std::vector<double>, tag::covariate1> > f;
    static bool const reads = true; static std::vector<double> cov(int k) { return std::vector<double>(2, k); }
    static int const min_n = 1;
    template<class E, class I, class WS> static void check(E const &e, I const &i, WS const &w)
    {
        same("quantile", quantile(e, quantile_probability = 0.4, W), quantile(i, quantile_probability = 0.4));
        same("tail mean", non_coherent_weighted_tail_mean(e, quantile_probability = 0.4, W), non_coherent_weighted_tail_mean(i, quantile_probability = 0.4));
        same("relative", *relative_weighted_tail_variate_means(e, quantile_probability = 0.4, W).begin(), *relative_weighted_tail_variate_means(i, quantile_probability = 0.4).begin());
    }
};
struct covar {
    typedef stats<tag::weighted_covariance<double, tag::covariate1>, tag::weighted_mean_of_variates<double, tag::covariate1>, tag::weighted_sum_of_variates<double, tag::covariate1> > f;
    static bool const reads = true; static double cov(int k) { return k; }
    static int const min_n = 1;
    template<class E, class I, class WS> static void check(E const &e, I const &i, WS const &w)
    {
        typedef tag::weighted_covariance<double, tag::covariate1> c; typedef tag::weighted_mean_of_variates<double, tag::covariate1> m; typedef tag::weighted_sum_of_variates<double, tag::covariate1> t;
        same("covariance", extract_result<c>(e, W), extract_result<c>(i));
        same("mean of variates", extract_result<m>(e, W), extract_result<m>(i));
        same("sum of variates", extract_result<t>(e, W), extract_result<t>(i));
    }
};
struct basics {
    typedef stats<tag::weighted_mean, tag::weighted_variance(lazy), tag::weighted_moment<3>, tag::weighted_sum, tag::mean_of_weights, tag::min> f;
    static bool const reads = false; static double cov(int k) { return k; }
    static int const min_n = 2;
    template<class E, class I, class WS> static void check(E const &e, I const &i, WS const &w)
    {
        same("weighted_sum", weighted_sum(e, W), weighted_sum(i)); same("sum_of_weights", sum_of_weights(e, W), sum_of_weights(i));
        same("weighted_mean", weighted_mean(e, W), weighted_mean(i)); same("weighted_variance", weighted_variance(e, W), weighted_variance(i));
        same("weighted_moment<3>", weighted_moment<3>(e, W), weighted_moment<3>(i)); same("mean_of_weights", mean_of_weights(e, W), mean_of_weights(i));
        same("min", (min)(e), (min)(i));
    }
};
struct immediates {
    typedef stats<tag::weighted_mean(immediate), tag::weighted_variance, tag::weighted_sum> f;
    static bool const reads = true; static double cov(int k) { return k; }
    static int const min_n = 1;
    template<class E, class I, class WS> static void check(E const &e, I const &i, WS const &w)
    {
        same("weighted_mean", weighted_mean(e, W), weighted_mean(i)); same("weighted_variance", weighted_variance(e, W), weighted_variance(i)); same("weighted_sum", weighted_sum(e, W), weighted_sum(i));
    }
};
template<class K, class S, class Wt> void outside()
{
    typedef accumulator_set<void, stats<tag::sum_of_weights, tag::mean_of_weights, tag::count>, Wt> weight_set;
    typedef accumulator_set<S, typename K::f, external<Wt> > ext;
    typedef accumulator_set<S, typename K::f, Wt> in;
    mc::fresh<weight_set> w; mc::fresh<ext> a; mc::fresh<in> ia;
    w.make();
    a.make(left_tail_cache_size = 9, right_tail_cache_size = 9, quantile_probability = 0.5, extended_p_square_probabilities = probs, p_square_cumulative_distribution_num_cells = 2, density_cache_size = 5, density_num_bins = 3);
    ia.make(left_tail_cache_size = 9, right_tail_cache_size = 9, quantile_probability = 0.5, extended_p_square_probabilities = probs, p_square_cumulative_distribution_num_cells = 2, density_cache_size = 5, density_num_bins = 3);
    // a free word, repeated with a drift
    int word[4], L = mc::depth(3, 4);
    for (int k = 0; k < L; ++k) word[k] = mc::choose(9);
    bool const late = !K::reads && mc::choose(2);                          // the set of weights is told after or before the set of samples
    for (int d = 0; d < 14; ++d) {
        int const k = word[d % L];
        S const x = S(xs[k % 3] + d % 5); Wt wt = Wt(ws[k / 3]); if (wt == Wt(0)) wt = Wt(3);
        if (!late) (*w)(weight = wt);
        (*a)(x, weight = wt, weights = *w, covariate1 = K::cov(d % 4 - k)); (*ia)(x, weight = wt, covariate1 = K::cov(d % 4 - k));
        if (late) (*w)(weight = wt);
        if (d + 1 >= K::min_n) K::check(*a, *ia, *w);
        mc::step();
    }
    ext const copy(*a);
    K::check(copy, *ia, *w);
}
// statistics that read the total weight while a sample is added need the weights first
MC_REGISTER
{
#define RUN(k, s, w) mc::add_config("weights outside: " #k ", " #s " weight " #w, outside<k, s, w>, 2)
    RUN(basics, double, double); RUN(basics, int, int); RUN(basics, double, int); RUN(basics, int, double); RUN(basics, float, float);
    RUN(streams, double, double);
    RUN(histogram, double, double);
    RUN(medians, double, double); RUN(cumul_median, double, double);
    RUN(tails, double, double);
    RUN(covar, double, double);
    RUN(immediates, double, double); RUN(immediates, int, int);
}
