#include "c02.hpp"
// moments of every order up to 13
namespace {
template<class S> using many = accumulator_set<S, stats<tag::moment<1>, tag::moment<2>, tag::moment<3>, tag::moment<4>, tag::moment<5>, tag::moment<6>, tag::moment<7>, tag::moment<8>, tag::moment<9>, tag::moment<10>, tag::moment<11>, tag::moment<12>, tag::moment<13> > >;
template<int N, class A> void check(A const &a, std::vector<double> const &x, ref::ld eps)
{
    if constexpr (N > 0) {
        ref::ld m = 0, q = 0;
        for (double v : x) { ref::ld p = 1; for (int i = 0; i < N; ++i) p *= v; m += p; q += std::fabs(p); }
        m /= x.size(); q /= x.size();
        if (mc::verbose()) mc::note("    moment<%d> = %.12g", N, (double)moment<N>(a));
        mc::check_near("a moment of high order", moment<N>(a), m, eps * 8 * (N + x.size()) * q);
        check<N - 1>(a, x, eps);
    }
}
template<class S> void orders()
{
    S const V[] = {(S)1, (S)-3, (S)2.5, (S)0, (S)-1};
    mc::fresh<many<S> > a; a.make(); std::vector<double> x;
    for (int i = 0, D = mc::depth(4, 5); i < D; ++i) { S const v = mc::pick(V); mc::note("push %g", (double)v); (*a)(v); x.push_back((double)v); check<13>(*a, x, ref::eps_of<S>()); mc::step(); }
}
}
MC_REGISTER {
    mc::add_config("orders<double>", orders<double>);
    mc::add_config("orders<long>", orders<long>);
    mc::add_config("orders<float>", orders<float>);
}
