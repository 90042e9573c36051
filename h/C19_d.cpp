#include "ref.hpp"
#include <memory>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
// C19: a library statistic that is dropped shows from then on what it showed at that moment; until then it is the
// same as in a set without anything droppable; copies of either kind carry on in the same way.
using namespace boost::accumulators;
namespace {
double const xs[] = {3., -1.5, 8.};
static double const probs_[] = {0.25, 0.5, 0.75};
std::vector<double> const probs(probs_, probs_ + 3);
#define ARGS left_tail_cache_size = 30, right_tail_cache_size = 30, quantile_probability = 0.5, extended_p_square_probabilities = probs, density_cache_size = 3, density_num_bins = 3, tag::rolling_window::window_size = 3
template<class F, class G, class R> void freeze(R read, int min_n)
{
    typedef accumulator_set<double, features<tag::max, droppable<F> > > dset; typedef accumulator_set<double, features<tag::max, F> > pset;
    std::unique_ptr<mc::fresh<dset> > s(new mc::fresh<dset>); mc::fresh<pset> p;
    s->make(ARGS); p.make(ARGS);
    int n = 0; bool gone = false; std::vector<double> last;
    int const D = mc::depth(7, 9);
    for (int i = 0; i < min_n - 1; ++i) { (**s)((double)((i * 5) % 7)); (*p)((double)((i * 5) % 7)); ++n; }
    for (int d = 0; d < D; ++d) {
        int const op = mc::choose(gone ? 3 : 4);
        if (op < 2) { double const x = xs[op] + d; mc::note("sample %g", x); (**s)(x); if (!gone) (*p)(x); ++n; }
        else if (op == 2) { mc::note("replaced by a copy"); std::unique_ptr<mc::fresh<dset> > t(new mc::fresh<dset>); t->make(**s); s = std::move(t); }
        else { mc::note("drop"); (**s).template drop<G>(); gone = true; }
        if (n >= min_n) {
            std::vector<double> const got = read(**s), want = read(*p);
            mc::check_eq("number of values", (int)got.size(), (int)want.size());
            for (std::size_t i = 0; i < got.size(); ++i) mc::check_near(gone ? "after the drop" : "before the drop", got[i], want[i], 1e-9L * (1 + std::fabs(want[i])));
        }
        mc::step();
    }
}
typedef std::vector<double> vd;
template<class R> vd list(R const &r) { vd v; for (auto const &x : r) v.push_back(x); return v; }
template<class R> vd pairs(R const &r) { vd v; for (auto const &x : r) { v.push_back(x.first); v.push_back(x.second); } return v; }
}
MC_REGISTER
{
#define RUN(F, G, n, e) mc::add_config("droppable " #F, [] { freeze<F, G>([](auto const &s) { return vd(e); }, n); })
    RUN(tag::skewness, tag::skewness, 3, (vd{skewness(s), mean(s)}));
    RUN(tag::kurtosis, tag::kurtosis, 3, (vd{kurtosis(s), moment<3>(s)}));
    RUN(tag::error_of<tag::mean>, tag::error_of<tag::mean>, 2, (vd{error_of<tag::mean>(s)}));
    RUN(tag::p_square_quantile, tag::p_square_quantile, 5, (vd{p_square_quantile(s)}));
    RUN(tag::median, tag::median, 5, (vd{median(s)}));
    RUN(tag::extended_p_square, tag::extended_p_square, 7, list(extended_p_square(s)));
    RUN(tag::extended_p_square_quantile, tag::extended_p_square_quantile, 7, (vd{quantile(s, quantile_probability = 0.4)}));
    RUN(tag::density, tag::density, 3, pairs(density(s)));
    RUN(tag::tail<left>, tag::tail<left>, 1, list(tail(s)));
    RUN(tag::tail_quantile<right>, tag::tail_quantile<right>, 1, (vd{quantile(s, quantile_probability = 0.6)}));
    RUN(tag::sum_kahan, tag::sum_kahan, 1, (vd{sum_kahan(s)}));
    RUN(tag::rolling_mean, tag::rolling_mean, 1, (vd{rolling_mean(s)}));
    RUN(tag::lazy_rolling_mean, tag::rolling_mean, 1, (vd{rolling_mean(s)}));
    RUN(tag::rolling_variance, tag::rolling_variance, 2, (vd{rolling_variance(s)}));
    RUN(tag::rolling_moment<2>, tag::rolling_moment<2>, 1, (vd{rolling_moment<2>(s)}));
    RUN(tag::rolling_sum, tag::rolling_sum, 1, (vd{rolling_sum(s)}));
}
