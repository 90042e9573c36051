// C20: features of the user's that rest on library features, some levels deep, in sets with and without weights;
// long feature lists; feature lists that are plain MPL sequences.
#pragma once
#include "ref.hpp"
#include <boost/mpl/always.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
using namespace boost::accumulators;
namespace {
// one level above the mean, two, three; each adds one to what it reads
template<class E> struct above : accumulator_base {
    typedef double result_type;
    template<class A> above(A const &) {}
    template<class A> result_type result(A const &args) const { return E::read(args) + 1; }
};
struct read_mean { template<class A> static double read(A const &a) { return mean(a); } };
struct read_var { template<class A> static double read(A const &a) { return variance(a); } };
struct l1 : depends_on<tag::mean> { typedef boost::mpl::always<above<read_mean> > impl; };
struct v1 : depends_on<tag::variance> { typedef boost::mpl::always<above<read_var> > impl; };
struct read_l1 { template<class A> static double read(A const &a) { return extractor<l1>()(a); } };
struct read_v1 { template<class A> static double read(A const &a) { return extractor<v1>()(a); } };
struct l2 : depends_on<l1> { typedef boost::mpl::always<above<read_l1> > impl; };
struct v2 : depends_on<v1, l1> { typedef boost::mpl::always<above<read_v1> > impl; };
struct read_l2 { template<class A> static double read(A const &a) { return extractor<l2>()(a); } };
struct l3 : depends_on<l2, v2> { typedef boost::mpl::always<above<read_l2> > impl; };
struct read_l3 { template<class A> static double read(A const &a) { return extractor<l3>()(a); } };
struct l4 : depends_on<l3> { typedef boost::mpl::always<above<read_l3> > impl; };
// one that remembers, at each sample, the mean with that sample
struct running : accumulator_base {
    typedef double result_type; double sum_;
    template<class A> running(A const &) : sum_(0) {}
    template<class A> void operator()(A const &args) { sum_ += mean(args); }
    result_type result(dont_care) const { return sum_; }
};
struct r1 : depends_on<tag::mean(immediate)> { typedef boost::mpl::always<running> impl; };
struct r2 : depends_on<r1> { typedef boost::mpl::always<above<struct read_r1> > impl; };
struct read_r1 { template<class A> static double read(A const &a) { return extractor<r1>()(a); } };

static double const xs[] = {3., -1.5, 8.};
static double const ws[] = {1., 2.5, 0.5};
struct model {
    long double n = 0, w = 0, wx = 0, wxx = 0, run = 0;
    void add(double x, double weight_) { n += 1; w += weight_; wx += weight_ * x; wxx += weight_ * x * x; run += m(); }
    long double m() const { return wx / w; }
    long double v() const { return wxx / w - m() * m(); }
};
template<class F> struct expect;
#define EXPECT(F, E) template<> struct expect<F> { static long double of(model const &m) { return E; } static char const *name() { return #F; } };
EXPECT(l1, m.m() + 1) EXPECT(l2, m.m() + 2) EXPECT(l3, m.m() + 3) EXPECT(l4, m.m() + 4) EXPECT(v1, m.v() + 1) EXPECT(v2, m.v() + 2) EXPECT(r1, m.run) EXPECT(r2, m.run + 1) EXPECT(tag::mean, m.m()) EXPECT(tag::count, m.n)
template<class F, class S> void check_one(S const &s, model const &m) { mc::check_near(expect<F>::name(), extractor<F>()(s), expect<F>::of(m), 1e-9L * (1 + std::fabs(expect<F>::of(m)))); }
template<class W, class List, class... F> void run_list()
{
    accumulator_set<double, List, W> s;
    model m;
    int const n = mc::depth(4, 5);
    for (int i = 0; i < n; ++i) {
        double const x = mc::pick(xs); double w = 1;
        if constexpr (std::is_void<W>::value) s(x); else { w = mc::pick(ws); s(x, weight = w); }
        m.add(x, w);
        (check_one<F>(s, m), ...);
        mc::step();
    }
}
} // namespace
