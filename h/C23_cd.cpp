#include "c23.hpp"
#include <memory>
MC_REGISTER
{
    mc::add_config("std::complex<double>: sum, means", [] { double const tol = 1e-9; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<double> >::go<stats<tag::sum, tag::mean, tag::sum_kahan> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(sum(s)); LIFT(mean(s)); LIFT(sum_kahan(s)); }); }, 2);
    mc::add_config("std::complex<double>: immediate mean", [] { double const tol = 1e-9; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<double> >::go<stats<tag::mean(immediate)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(mean(s)); }); }, 2);
    mc::add_config("std::complex<double>: rolling", [] { double const tol = 1e-9; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<double> >::go<stats<tag::rolling_sum, tag::rolling_mean(lazy)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(rolling_sum(s)); LIFT(rolling_mean(s)); }); }, 2);
    mc::add_config("std::complex<double>, weighted: sum, mean", [] { double const tol = 1e-9; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<double> >::weighted<stats<tag::sum, tag::mean> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(sum(s)); LIFT(mean(s)); }); }, 2);
    mc::add_config("std::complex<double>, weighted: immediate mean", [] { double const tol = 1e-9; int const dim = 2 + mc::choose(1);
        run_lift<std::complex<double> >::weighted<stats<tag::mean(immediate)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(mean(s)); }); }, 2);
}
