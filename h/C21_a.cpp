#include "ref.hpp"
#include <memory>
#include <string>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
// C21: statistics kept in another set, values and references kept in a set.
using namespace boost::accumulators;
namespace my {
    BOOST_PARAMETER_KEYWORD(tag, sum_acc)
    BOOST_PARAMETER_KEYWORD(tag, other_acc)
    BOOST_PARAMETER_KEYWORD(tag, thing)
    BOOST_PARAMETER_KEYWORD(tag, thing2)
}
static double const xs[] = {3., -1.5, 8.};
static void near(char const *what, double got, long double want) { mc::check_near(what, got, want, 1e-9L * (1 + std::fabs(want))); }

// ---- one statistic in another set ---------------------------------------------------------------
// The external sum may lag behind or run ahead: mean is whatever the other set says, divided by the count here.
struct by_name {
    typedef accumulator_set<double, stats<tag::sum> > ext;
    typedef accumulator_set<double, stats<tag::mean, tag::external<tag::sum, my::tag::sum_acc>, tag::max> > set;
    static void make(mc::fresh<set> &s, ext &) { s.make(); }
    static double mean_(set const &s, ext const &e) { return mean(s, my::sum_acc = e); }
    static double sum_(set const &s, ext const &e) { return sum(s, my::sum_acc = e); }
    static bool const held = false;
};
struct by_reference {
    typedef accumulator_set<double, stats<tag::sum> > ext;
    typedef accumulator_set<double, stats<tag::mean, tag::external<tag::sum, my::tag::sum_acc>, tag::reference<ext, my::tag::sum_acc>, tag::max> > set;
    static void make(mc::fresh<set> &s, ext &e) { s.make(my::sum_acc = e); }
    static double mean_(set const &s, ext const &) { return mean(s); }
    static double sum_(set const &s, ext const &) { return sum(s); }
    static bool const held = true;
};
struct with_type {
    typedef accumulator_set<double, stats<tag::count, tag::sum, tag::min> > ext;
    typedef accumulator_set<double, stats<tag::external<tag::sum, my::tag::sum_acc, ext>, tag::mean, tag::max> > set;
    static void make(mc::fresh<set> &s, ext &e) { s.make(my::sum_acc = e); }
    static double mean_(set const &s, ext const &) { return mean(s); }
    static double sum_(set const &s, ext const &) { return sum(s); }
    static bool const held = true;
};
template<class K> void external_sum()
{
    typedef typename K::set set;
    mc::fresh<typename K::ext> e[2]; e[0].make(); e[1].make();
    std::unique_ptr<mc::fresh<set> > s(new mc::fresh<set>); K::make(*s, *e[0]);
    int which = 0, n = 0; long double es[2] = {0, 0}; double mx = 0;
    int const D = mc::depth(6, 8);
    for (int d = 0; d < D; ++d) {
        int const op = mc::choose(5);
        double const x = xs[d % 3] + d;
        switch (op) {
        case 0: mc::note("sample for the set"); (**s)(x); mx = n ? std::max(mx, x) : x; ++n; break;
        case 1: mc::note("sample for the sum set"); (*e[which])(x); es[which] += x; break;
        case 2: mc::note("sample for an unrelated sum set"); (*e[1 - which])(x); es[1 - which] += x; break;
        case 3: { mc::note("replaced by a copy"); std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>); t->make(**s); s = std::move(t); break; }
        case 4: { mc::note("assigned to a set that uses the other one");
            std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>); K::make(*t, *e[1 - which]); (**t)(99.); **t = **s; s = std::move(t);
            if (!K::held) which = 1 - which;               // named at each use: this time the other one
            break; }
        }
        mc::check_eq("count", (int)count(**s), n);
        near("sum", K::sum_(**s, *e[which]), es[which]);
        near("sum, of a set named when read", sum(**s, my::sum_acc = *e[1 - which]), es[1 - which]);
        near("sum, as before", K::sum_(**s, *e[which]), es[which]);
        near("sum, asked of the sum set", sum(*e[which]), es[which]);
        near("sum, asked of the unrelated set", sum(*e[1 - which]), es[1 - which]);
        if (n) { near("mean", K::mean_(**s, *e[which]), es[which] / n); near("max", (max)(**s), mx); }
        mc::step();
    }
}

// ---- two statistics, in two other sets, one named when read and one held ------------------------------
static void external_two()
{
    typedef accumulator_set<double, stats<tag::sum> > sums; typedef accumulator_set<int, stats<tag::count, tag::max> > counts;
    typedef accumulator_set<double, stats<tag::variance(lazy), tag::moment<2>, tag::external<tag::sum, my::tag::sum_acc>, tag::external<tag::count, my::tag::other_acc>, tag::reference<counts, my::tag::other_acc>, tag::min> > set;
    mc::fresh<sums> e; mc::fresh<counts> c; mc::fresh<set> s;
    e.make(); c.make(); s.make(my::other_acc = *c);
    long double es = 0, s2 = 0; int cn = 0, n = 0;
    int const D = mc::depth(6, 8);
    for (int d = 0; d < D; ++d) {
        double const x = xs[d % 3] - d;
        switch (mc::choose(4)) {
        case 0: mc::note("sample for the set"); (*s)(x); s2 += (long double)x * x; ++n; break;
        case 1: mc::note("sample for the sum set"); (*e)(x); es += x; break;
        case 2: mc::note("sample for the count set"); (*c)(d); ++cn; break;
        case 3: mc::note("sample for all"); (*s)(x); s2 += (long double)x * x; ++n; (*e)(x); es += x; (*c)(d); ++cn; break;
        }
        mc::check_eq("count", (int)count(*s), cn);
        near("sum", sum(*s, my::sum_acc = *e), es);
        if (cn) {
            near("mean", mean(*s, my::sum_acc = *e), es / cn);
            near("moment<2>", moment<2>(*s, my::sum_acc = *e), s2 / cn);
            near("variance", variance(*s, my::sum_acc = *e), s2 / cn - es / cn * es / cn);
        }
        mc::step();
    }
}

// ---- references and values ------------------------------------------------------------------------
template<class T> T var(int k);
template<> int var<int>(int k) { return k * 7 + 1; }
template<> std::string var<std::string>(int k) { return "some text that does not fit in place, number " + std::to_string(k); }
template<> std::vector<double> var<std::vector<double> >(int k) { return std::vector<double>(3 + k, k); }
template<class T> void kept()
{
    typedef accumulator_set<double, features<tag::value<T, my::tag::thing>, tag::reference<T, my::tag::thing2>, tag::count> > set;
    int k = mc::choose(2), now = k + 5, n = 0;
    T held = var<T>(k);
    T *ref = new T(var<T>(now));
    std::unique_ptr<mc::fresh<set> > s(new mc::fresh<set>);
    { T const temp = held; s->make(my::thing = temp, my::thing2 = *ref); }
    int const D = mc::depth(6, 8);
    for (int d = 0; d < D; ++d) {
        switch (mc::choose(5)) {
        case 0: (**s)(1.); ++n; break;
        case 1: now = d; *ref = var<T>(d); break;
        case 2: now = 20 + d; reference_tag<my::tag::thing2>(**s) = var<T>(20 + d); break;
        case 3: { std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>); t->make(**s); s = std::move(t); break; }
        case 4: { std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>); T a = var<T>(9), b = var<T>(8); t->make(my::thing = a, my::thing2 = b); **t = **s; s = std::move(t); break; }
        }
        mc::observe(now); mc::observe(n); mc::observe(k);
        if (!((value<T, my::tag::thing>(**s)) == held)) mc::fail("value<>: not the value the set was made with");
        if (!((value_tag<my::tag::thing>(**s)) == held)) mc::fail("value_tag<>: not the value the set was made with");
        T &r1 = reference<T, my::tag::thing2>(**s), &r2 = reference_tag<my::tag::thing2>(**s);
        if (&r1 != ref || &r2 != ref) mc::fail("reference<>: does not refer to the object the set was made with");
        if (!(*ref == var<T>(now))) mc::fail("reference<>: assigning through it does not reach the object");
        mc::check_eq("count", (int)count(**s), n);
        mc::step();
    }
    delete ref;
}
MC_REGISTER
{
    mc::add_config("external sum, named when read", external_sum<by_name>);
    mc::add_config("external sum, held by reference", external_sum<by_reference>);
    mc::add_config("external sum, set type given", external_sum<with_type>);
    mc::add_config("external sum and external count", external_two);
    mc::add_config("value and reference: int", kept<int>);
    mc::add_config("value and reference: string", kept<std::string>);
    mc::add_config("value and reference: vector", kept<std::vector<double> >);
}
