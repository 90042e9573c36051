#include "c23.hpp"
#include <memory>
MC_REGISTER
{
    mc::add_config("std::complex<float>: sum, means", [] { double const tol = 1e-4; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<float> >::go<stats<tag::sum, tag::mean, tag::sum_kahan> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(sum(s)); LIFT(mean(s)); LIFT(sum_kahan(s)); }); }, 2);
    mc::add_config("std::complex<float>: immediate mean", [] { double const tol = 1e-4; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<float> >::go<stats<tag::mean(immediate)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(mean(s)); }); }, 2);
    mc::add_config("std::complex<float>: rolling", [] { double const tol = 1e-4; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<float> >::go<stats<tag::rolling_sum, tag::rolling_mean(lazy)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(rolling_sum(s)); LIFT(rolling_mean(s)); }); }, 2);
    mc::add_config("std::complex<float>, weighted: sum, mean", [] { double const tol = 1e-4; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<float> >::weighted<stats<tag::sum, tag::mean> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(sum(s)); LIFT(mean(s)); }); }, 2);
    mc::add_config("std::complex<float>, weighted: immediate mean", [] { double const tol = 1e-4; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<float> >::weighted<stats<tag::mean(immediate)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(mean(s)); }); }, 2);
}
