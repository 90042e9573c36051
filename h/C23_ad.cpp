#include "c23.hpp"
#include <memory>
MC_REGISTER
{
    mc::add_config("std::valarray<double>: sum min max mean", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(3);
        run_lift<std::valarray<double> >::go<stats<tag::sum, tag::min, tag::max, tag::mean> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(sum(s)); LIFT((min)(s)); LIFT((max)(s)); LIFT(mean(s)); }); }, 2);
    mc::add_config("std::valarray<double>: immediate mean", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(2);
        run_lift<std::valarray<double> >::go<stats<tag::mean(immediate)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(mean(s)); }); }, 2);
    mc::add_config("std::valarray<double>: moments, lazy variance", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(2);
        run_lift<std::valarray<double> >::go<stats<tag::moment<2>, tag::moment<3>, tag::variance(lazy)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFTN(moment<2>(s), 2); LIFTN(moment<3>(s), 3); LIFTN(variance(s), 2); }); }, 2);
    mc::add_config("std::valarray<double>: variance", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(2);
        run_lift<std::valarray<double> >::go<stats<tag::variance> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFTN(variance(s), 2); LIFT(mean(s)); }); }, 2);
    mc::add_config("std::valarray<double>: rolling", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(2);
        run_lift<std::valarray<double> >::go<stats<tag::rolling_sum, tag::rolling_count, tag::rolling_mean(lazy), tag::rolling_moment<2>> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(rolling_sum(s)); LIFT(rolling_mean(s)); LIFTN(rolling_moment<2>(s), 2); }); }, 2);
}
