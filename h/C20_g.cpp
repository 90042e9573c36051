// C20: long lists of features that depend on each other in long chains, in several orders.
#include "ref.hpp"
#include <boost/mpl/always.hpp>
#include <boost/accumulators/framework/accumulator_set.hpp>
#include <boost/accumulators/framework/features.hpp>
#include <boost/accumulators/framework/accumulator_base.hpp>
#include <boost/accumulators/framework/extractor.hpp>
#include <boost/accumulators/framework/parameters/sample.hpp>
#include <boost/accumulators/framework/accumulators/droppable_accumulator.hpp>
using namespace boost::accumulators;
namespace {
int const K = 14;
// counts how often it was updated, and how often a dependency of it had seen less
template<int N> struct link_impl;
template<int N> struct link;
template<int N> struct link_impl : accumulator_base {
    typedef int result_type; int n, late;
    template<class A> link_impl(A const &) : n(0), late(0) {}
    template<class A> void operator()(A const &args) { ++n; see<N - 1>(args); see<N / 2>(args); }
    template<int M, class A> void see(A const &args) { if constexpr (M >= 0 && M < N) if (extractor<link<M> >()(args) != n) ++late; }
    result_type result(dont_care) const { return late ? -1000 - late : n; }
};
template<int N> struct link : depends_on<link<N - 1>, link<N / 2> > { typedef boost::mpl::always<link_impl<N> > impl; };
template<> struct link<0> : depends_on<> { typedef boost::mpl::always<link_impl<0> > impl; };
template<> struct link<1> : depends_on<link<0> > { typedef boost::mpl::always<link_impl<1> > impl; };
struct counter { int *n; template<class A> void operator()(A &) const { ++*n; } };
template<int Top, class S> void check(S const &s, int want)
{
    if constexpr (Top >= 0) { mc::check_eq("updates of a link", extractor<link<Top> >()(s), want); check<Top - 1>(s, want); }
}
template<int Top, class... F> void chain()
{
    mc::fresh<accumulator_set<double, features<F...> > > s; s.make();
    int n = 0; (*s).visit(counter{&n});
    mc::check_eq("accumulators in the set", n, Top + 1);
    for (int i = 1; i <= 3; ++i) { (*s)(1.); check<Top>(*s, i); mc::step(); }
}
#define ADD(Top, ...) mc::add_config("chain: " #__VA_ARGS__, chain<Top, __VA_ARGS__>)
typedef link<0> a0; typedef link<1> a1; typedef link<2> a2; typedef link<3> a3; typedef link<4> a4; typedef link<5> a5; typedef link<6> a6; typedef link<7> a7; typedef link<8> a8; typedef link<9> a9; typedef link<10> a10; typedef link<11> a11; typedef link<12> a12; typedef link<13> a13;
} // namespace
MC_REGISTER
{
    ADD(9, a9, a8, a7, a6, a5, a4, a3, a2, a1, a0);
    ADD(13, a7, a3, a11, a13, a0);
    ADD(9, a4, droppable<a9>, a1);
    ADD(9, droppable<a3>, a9, droppable<a6>);
}
