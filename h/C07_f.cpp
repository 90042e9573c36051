#include "c07.hpp"
// rolling moments of every order up to 12
namespace {
template<class S> using many = accumulator_set<S, stats<tag::rolling_moment<1>, tag::rolling_moment<2>, tag::rolling_moment<3>, tag::rolling_moment<4>, tag::rolling_moment<5>, tag::rolling_moment<6>, tag::rolling_moment<7>, tag::rolling_moment<8>, tag::rolling_moment<9>, tag::rolling_moment<10>, tag::rolling_moment<11>, tag::rolling_moment<12> > >;
template<int N, class A, class S> void check(A const &a, window<S> const &m) { if constexpr (N > 0) { mc::check_near("a rolling moment of high order", rolling_moment<N>(a), m.sum(N) / m.q.size(), m.tol(N)); check<N - 1>(a, m); } }
template<class S> void orders()
{
    S const V[] = {(S)1, (S)-3, (S)2.5, (S)-1}; int const n = 1 + mc::choose(3);
    mc::fresh<many<S> > a; a.make(tag::rolling_window::window_size = n); window<S> m(n);
    for (int i = 0, D = mc::depth(5, 6); i < D; ++i) { S const v = mc::pick(V); mc::note("push %g", (double)v); (*a)(v); m.push(v); check<12>(*a, m); mc::step(); }
}
}
MC_REGISTER {
    mc::add_config("orders<double>", orders<double>);
    mc::add_config("orders<long>", orders<long>);
}
