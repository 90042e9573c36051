#include "c03.hpp"
// weighted moments of every order up to 13
namespace {
template<class S, class W> using many = accumulator_set<S, stats<tag::moment<1>, tag::moment<2>, tag::moment<3>, tag::moment<4>, tag::moment<5>, tag::moment<6>, tag::moment<7>, tag::moment<8>, tag::moment<9>, tag::weighted_moment<10>, tag::weighted_moment<11>, tag::weighted_moment<12>, tag::weighted_moment<13> >, W>;
template<int N, class A> void check(A const &a, std::vector<double> const &x, std::vector<double> const &w)
{
    if constexpr (N > 0) {
        ref::ld m = 0, q = 0, t = 0;
        for (std::size_t k = 0; k < x.size(); ++k) { ref::ld p = w[k]; for (int i = 0; i < N; ++i) p *= x[k]; m += p; q += std::fabs(p); t += w[k]; }
        mc::check_near("a weighted moment of high order", weighted_moment<N>(a), m / t, 2e-15L * (N + x.size()) * q / t);
        check<N - 1>(a, x, w);
    }
}
template<class S, class W> void orders()
{
    S const V[] = {(S)1, (S)-3, (S)2.5, (S)-1}; W const U[] = {(W)1, (W)2.5};
    mc::fresh<many<S, W> > a; a.make(); std::vector<double> x, w;
    for (int i = 0, D = mc::depth(3, 4); i < D; ++i) { S const v = mc::pick(V); W const u = mc::pick(U); mc::note("push %g weight %g", (double)v, (double)u); (*a)(v, weight = u); x.push_back((double)v); w.push_back((double)u); check<13>(*a, x, w); mc::step(); }
}
}
MC_REGISTER {
    mc::add_config("orders<double,double>", orders<double, double>);
    mc::add_config("orders<long,int>", orders<long, int>);
    mc::add_config("orders<double,int>", orders<double, int>);
}
