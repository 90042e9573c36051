#include "c23.hpp"
#include <memory>
MC_REGISTER
{
    mc::add_config("std::vector<int>: sum min max mean", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(3);
        run_lift<std::vector<int> >::go<stats<tag::sum, tag::min, tag::max, tag::mean> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(sum(s)); LIFT((min)(s)); LIFT((max)(s)); LIFT(mean(s)); }); }, 2);
    mc::add_config("std::vector<int>: immediate mean", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(2);
        run_lift<std::vector<int> >::go<stats<tag::mean(immediate)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(mean(s)); }); }, 2);
    mc::add_config("std::vector<int>: moments, lazy variance", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(2);
        run_lift<std::vector<int> >::go<stats<tag::moment<2>, tag::moment<3>, tag::variance(lazy)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFTN(moment<2>(s), 2); LIFTN(moment<3>(s), 3); LIFTN(variance(s), 2); }); }, 2);
    mc::add_config("std::vector<int>: variance", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(2);
        run_lift<std::vector<int> >::go<stats<tag::variance> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFTN(variance(s), 2); LIFT(mean(s)); }); }, 2);
}
