#include "c23.hpp"
#include <memory>
MC_REGISTER
{
    mc::add_config("std::valarray<int>, weighted: sum min max mean", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(2);
        run_lift<std::valarray<int> >::weighted<stats<tag::sum, tag::min, tag::max, tag::mean> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(sum(s)); LIFT((min)(s)); LIFT((max)(s)); LIFT(mean(s)); }); }, 2);
    mc::add_config("std::valarray<int>, weighted: immediate mean", [] { double const tol = 1e-9; int const dim = 1 + mc::choose(2);
        run_lift<std::valarray<int> >::weighted<stats<tag::mean(immediate)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(mean(s)); }); }, 2);
}
