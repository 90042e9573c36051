#include "c23.hpp"
#include <memory>
template<class V> void small(char const *name, double tol)
{
    mc::add_config(std::string(name) + ": sum min max mean variance", [tol] { int const dim = 1 + mc::choose(2);
        run_lift<V>::template go<stats<tag::sum, tag::min, tag::max, tag::mean, tag::variance(lazy)> >(dim, [&](auto const &S, auto const &E, int n) { (void)n; LIFT(sum(s)); LIFT((min)(s)); LIFT((max)(s)); LIFT(mean(s)); LIFTN(variance(s), 2); }); }, 2);
}
MC_REGISTER
{
    small<std::vector<float> >("std::vector<float>", 1e-4);
    small<std::valarray<float> >("std::valarray<float>", 1e-4);
    small<std::vector<long> >("std::vector<long>", 1e-9);
    mc::add_config("extremes: vector<double>", extremes<std::vector<double> >);
    mc::add_config("extremes: vector<int>", extremes<std::vector<int> >);
    mc::add_config("extremes: vector<unsigned>", extremes<std::vector<unsigned> >);
    mc::add_config("extremes: vector<float>", extremes<std::vector<float> >);
    mc::add_config("extremes: valarray<double>", extremes<std::valarray<double> >);
    mc::add_config("extremes: valarray<int>", extremes<std::valarray<int> >);
}
