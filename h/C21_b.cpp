#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
// C21: weights kept once, outside, for several sets of samples: every result is the one that a set with
// weights of its own gives.
using namespace boost::accumulators;
static double const xs[] = {3., -1.5, 8.};
static double const ws[] = {1., 2., 0.5};
static void same(char const *what, double got, double want) { mc::check_near(what, got, want, 1e-9L * (1 + std::fabs(want))); }
#define W weights = *w
typedef accumulator_set<void, stats<tag::sum_of_weights, tag::mean_of_weights, tag::count>, double> weight_set;
struct lazies {
    typedef stats<tag::weighted_mean, tag::weighted_variance(lazy), tag::weighted_moment<2>, tag::weighted_skewness, tag::weighted_kurtosis, tag::weighted_sum> f;
    template<class E, class I> static void check(E const &e, I const &i, weight_set const *w, int n)
    {
        same("weighted_sum", weighted_sum(e, W), weighted_sum(i));
        same("sum_of_weights", sum_of_weights(e, W), sum_of_weights(i));
        same("weighted_mean", weighted_mean(e, W), weighted_mean(i));
        same("weighted_variance", weighted_variance(e, W), weighted_variance(i));
        same("weighted_moment<2>", weighted_moment<2>(e, W), weighted_moment<2>(i));
        if (n > 2) { same("weighted_skewness", weighted_skewness(e, W), weighted_skewness(i)); same("weighted_kurtosis", weighted_kurtosis(e, W), weighted_kurtosis(i)); }
    }
};
struct plain_names {
    typedef stats<tag::mean, tag::variance(lazy), tag::sum, tag::min, tag::max> f;
    template<class E, class I> static void check(E const &e, I const &i, weight_set const *w, int)
    {
        same("sum", sum(e), sum(i)); same("mean", mean(e, W), mean(i)); same("variance", variance(e, W), variance(i));
        same("min", (min)(e), (min)(i)); same("max", (max)(e), (max)(i)); mc::check_eq("count", (int)count(e), (int)count(i));
    }
};
struct immediates {
    typedef stats<tag::weighted_mean(immediate), tag::weighted_variance> f;
    template<class E, class I> static void check(E const &e, I const &i, weight_set const *w, int)
    {
        same("weighted_mean", weighted_mean(e), weighted_mean(i)); same("weighted_variance", weighted_variance(e), weighted_variance(i));
    }
};
struct tails {
    typedef stats<tag::weighted_tail_quantile<right>, tag::non_coherent_weighted_tail_mean<right> > f;
    template<class E, class I> static void check(E const &e, I const &i, weight_set const *w, int)
    {
        same("quantile", quantile(e, quantile_probability = 0.6, W), quantile(i, quantile_probability = 0.6));
        same("tail mean", non_coherent_weighted_tail_mean(e, quantile_probability = 0.6, W), non_coherent_weighted_tail_mean(i, quantile_probability = 0.6));
    }
};
template<class K, class External> void weights_outside()
{
    typedef accumulator_set<double, typename K::f, External> ext;
    typedef accumulator_set<double, typename K::f, double> in;
    mc::fresh<weight_set> w; mc::fresh<ext> a, b; mc::fresh<in> ia, ib;
    w.make();
    a.make(right_tail_cache_size = 6); b.make(right_tail_cache_size = 6); ia.make(right_tail_cache_size = 6); ib.make(right_tail_cache_size = 6);
    double total = 0;
    int const D = mc::depth(4, 6);
    for (int d = 0; d < D; ++d) {
        int const k = mc::choose(9), op = mc::choose(2);
        double const x = xs[k % 3], y = xs[(k + d) % 3] * 2, wt = ws[k / 3];
        mc::note("weight %g: %g into one set, %g into the other", wt, x, y);
        (*w)(weight = wt); total += wt;
        (*a)(x, weight = wt, weights = *w); (*b)(y, weight = wt, weights = *w);
        (*ia)(x, weight = wt); (*ib)(y, weight = wt);
        if (op || d + 1 == D) { K::check(*a, *ia, &*w, d + 1); K::check(*b, *ib, &*w, d + 1); }
        same("sum of the weights", sum_of_weights(*w), total); mc::check_eq("count of the weights", (int)count(*w), d + 1);
        mc::step();
    }
    ext const copy(*a);
    K::check(copy, *ia, &*w, D);
}
MC_REGISTER
{
    mc::add_config("external weights, lazy statistics", weights_outside<lazies, external<double> >, 2);
    mc::add_config("external weights, plain names", weights_outside<plain_names, external<double> >, 2);
    mc::add_config("external weights, immediate statistics", weights_outside<immediates, external<double> >, 2);
    mc::add_config("external weights, tail statistics", weights_outside<tails, external<double> >, 2);
}
