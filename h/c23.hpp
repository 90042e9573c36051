#pragma once
// C23: samples that are vectors, valarrays or complex numbers.  A statistic of vectors is the vector of the
// statistic of its elements; sums and means of complex numbers are those of their parts.
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#include <complex>
#include <valarray>
#include <vector>
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
using namespace boost::accumulators;

// reading and making samples part by part
template<class T> struct parts;
template<class T> struct parts<std::vector<T> > { typedef T elem; static std::vector<T> make(std::vector<double> const &v) { std::vector<T> r; for (double d : v) r.push_back((T)d); return r; } static double at(std::vector<T> const &v, int i) { return (double)v[i]; } static int size(std::vector<T> const &v) { return (int)v.size(); } };
template<class T> struct parts<std::valarray<T> > { typedef T elem; static std::valarray<T> make(std::vector<double> const &v) { std::valarray<T> r(v.size()); for (std::size_t i = 0; i < v.size(); ++i) r[i] = (T)v[i]; return r; } static double at(std::valarray<T> const &v, int i) { return (double)v[i]; } static int size(std::valarray<T> const &v) { return (int)v.size(); } };
template<class T> struct parts<std::complex<T> > { typedef T elem; static std::complex<T> make(std::vector<double> const &v) { return std::complex<T>((T)v[0], (T)v[1]); } static double at(std::complex<T> const &v, int i) { return i ? v.imag() : v.real(); } static int size(std::complex<T> const &) { return 2; } };

// k: the order of the statistic, so that it is compared in units of unit^k
static double unit = 1;
template<class R> void lifted(char const *what, R const &got, std::vector<double> const &want, double tol, int k)
{
    if (parts<R>::size(got) != (int)want.size()) mc::fail("%s has %d elements, expected %zu", what, parts<R>::size(got), want.size());
    double const u = std::pow(unit, k);
    for (std::size_t i = 0; i < want.size(); ++i) mc::check_near(what, parts<R>::at(got, (int)i) / u, want[i] / u, tol * (1 + std::fabs(want[i] / u)));
}
static double const els[] = {2., -3., 7.};
// samples of many elements, in long histories: every word of two values, each element running through it in its own way
struct wide_plan {
    int dim, len; double a, b, scale;
    explicit wide_plan(bool is_complex, bool integral)
    {
        static int const dims[] = {4, 5, 8, 9, 16, 17, 33, 64};
        static double const sc[] = {1., 1048576., 1. / 1048576};
        dim = is_complex ? 2 : mc::pick(dims);
        len = dim < 10 ? 40 : 12;
        a = mc::pick(els); b = mc::pick(els);
        scale = integral ? 1. : mc::pick(sc);
    }
    double at(int d, int i) const { return scale * (((d * (i % 5 + 1) + i) % 3 ? a : b) + (i * 7 + d * 3) % 11 - (i & 1 ? 9 : 0)); }
};
// every history of samples with elements from els: dim choices per sample
template<class V> struct run_lift {
    typedef typename parts<V>::elem E;
    static constexpr bool is_complex = std::is_same<V, std::complex<E> >::value;
    // Check: check(vector set, scalar sets)
    template<class Features, class Check> static void go(int dim, Check check, bool rolling = false)
    {
        typedef accumulator_set<V, Features> vset; typedef accumulator_set<E, Features> eset;
        unit = 1;
        std::unique_ptr<wide_plan> plan;
        if (dim == (is_complex ? 2 : 1) && mc::choose(2)) { plan.reset(new wide_plan(is_complex, std::is_integral<E>::value)); dim = plan->dim; unit = plan->scale; }
        V const zero = parts<V>::make(std::vector<double>(dim, 0.));
        mc::fresh<vset> s; std::vector<std::unique_ptr<eset> > e;
        int const win = plan ? 5 : 2;
        s.make(sample = zero, tag::rolling_window::window_size = win);
        for (int i = 0; i < dim; ++i) e.emplace_back(new eset(tag::rolling_window::window_size = win));
        int const D = plan ? plan->len : mc::depth(dim > 2 ? 2 : dim > 1 ? 3 : 4, dim > 2 ? 3 : dim > 1 ? 5 : 6);
        for (int d = 0; d < D; ++d) {
            std::vector<double> x; for (int i = 0; i < dim; ++i) x.push_back(plan ? plan->at(d, i) : mc::pick(els) + (i ? 0 : d));
            mc::note("sample %g %g", x[0], dim > 1 ? x[1] : 0.);
            V const v = parts<V>::make(x);
            if (d & 1) (*s)(v); else (*s)(sample = v);
            for (int i = 0; i < dim; ++i) (*e[i])((E)x[i]);
            check(*s, e, d + 1);
            mc::step();
        }
        vset const copy(*s); check(copy, e, D);
    }
    template<class Features, class Check> static void weighted(int dim, Check check)
    {
        typedef accumulator_set<V, Features, double> vset; typedef accumulator_set<E, Features, double> eset;
        unit = 1;
        std::unique_ptr<wide_plan> plan;
        if (dim == (is_complex ? 2 : 1) && mc::choose(2)) { plan.reset(new wide_plan(is_complex, std::is_integral<E>::value)); dim = plan->dim; unit = plan->scale; }
        V const zero = parts<V>::make(std::vector<double>(dim, 0.));
        static double const ws[] = {1., 2.5};
        static double const many[] = {1.5, 0.25, 3., 0., 1., 8.};
        mc::fresh<vset> s; std::vector<std::unique_ptr<eset> > e;
        s.make(sample = zero);
        for (int i = 0; i < dim; ++i) e.emplace_back(new eset);
        int const D = plan ? plan->len : mc::depth(dim > 1 ? 3 : 4, dim > 1 ? 4 : 5);
        for (int d = 0; d < D; ++d) {
            std::vector<double> x; for (int i = 0; i < dim; ++i) x.push_back(plan ? plan->at(d, i) : mc::pick(els) + (i ? 0 : d));
            double const w = plan ? many[d % 6] : mc::pick(ws);
            mc::note("sample %g %g weight %g", x[0], dim > 1 ? x[1] : 0., w);
            V const v = parts<V>::make(x);
            (*s)(v, weight = w);
            for (int i = 0; i < dim; ++i) (*e[i])((E)x[i], weight = w);
            check(*s, e, d + 1);
            mc::step();
        }
    }
};
// the smallest and largest of elements at the limits of their type
template<class V> void extremes()
{
    typedef typename parts<V>::elem E;
    typedef std::numeric_limits<E> L;
    static E const xs[] = {L::lowest(), (L::max)(), E(0), E(3)};
    int const dim = 1 + mc::choose(2);
    accumulator_set<V, stats<tag::min, tag::max, tag::count> > s(sample = parts<V>::make(std::vector<double>(dim, 0.)));
    std::vector<double> lo(dim, (double)(L::max)()), hi(dim, (double)L::lowest());
    for (int d = 0; d < mc::depth(3, 4); ++d) {
        std::vector<double> x; for (int i = 0; i < dim; ++i) x.push_back((double)mc::pick(xs));
        V v = parts<V>::make(std::vector<double>(dim, 0.));
        for (int i = 0; i < dim; ++i) { v[i] = (E)x[i]; lo[i] = std::min(lo[i], x[i]); hi[i] = std::max(hi[i], x[i]); }
        s(v);
        auto const l = (min)(s); auto const h = (max)(s);
        if ((int)l.size() != dim || (int)h.size() != dim) mc::fail("min or max has the wrong number of elements");
        for (int i = 0; i < dim; ++i) { mc::check_eq("min", (double)l[i], lo[i]); mc::check_eq("max", (double)h[i], hi[i]); }
        mc::check_eq("count", (int)count(s), d + 1);
        mc::step();
    }
}
#define LIFTN(x, k) lifted(#x, [&] { auto const &s = S; return x; }(), [&] { std::vector<double> r; for (auto &p : E) { auto const &s = *p; r.push_back(x); } return r; }(), tol, k)
#define LIFT(x) LIFTN(x, 1)
