#include "ref.hpp"
#include <array>
#include <memory>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
// C19 on the library's own statistics: the value of each is computed from what its parts have seen, and a part
// sees samples as long as something that is wanted needs it.
using namespace boost::accumulators;
namespace {
enum { CNT, SUM, MEAN, IMEAN, VAR, LVAR, M2, SOW, WSUM, WMEAN, WIMEAN, MIN, MAX, PARTS };
typedef std::array<bool, PARTS> flags;
struct model {
    std::vector<double> x, w;
    std::array<int, PARTS> n;
    model() { n.fill(0); }
    void push(double v, double wt, flags const &live) { x.push_back(v); w.push_back(wt); for (int i = 0; i < PARTS; ++i) if (live[i]) n[i] = (int)x.size(); }
    long double S(int part, int k) const { long double s = 0; for (int i = 0; i < n[part]; ++i) s += std::pow((long double)x[i], k); return s; }
    long double W(int part) const { long double s = 0; for (int i = 0; i < n[part]; ++i) s += w[i]; return s; }
    long double WS(int part) const { long double s = 0; for (int i = 0; i < n[part]; ++i) s += w[i] * x[i]; return s; }
    long double meanof(int part) const { return S(part, 1) / n[part]; }
    long double varof(int part) const { long double m = meanof(part); return S(part, 2) / n[part] - m * m; }
};
double const xs[] = {3., -1.5, 8.};
double const ws[] = {1., 2., 0.5};
// Wanted: the features of the list; needs[i]: the parts that feature i needs (itself included)
struct feature { std::vector<int> needs; bool can_drop; };
template<class Set, class DropFn, class Check> void run(std::vector<feature> const &f, bool weighted, DropFn drop, Check check)
{
    std::unique_ptr<mc::fresh<Set> > s(new mc::fresh<Set>); s->make();
    model m;
    std::vector<int> gone(f.size(), 0);
    auto live = [&] { flags l; l.fill(false); for (std::size_t i = 0; i < f.size(); ++i) if (!gone[i]) for (int p : f[i].needs) l[p] = true; return l; };
    int const D = mc::depth(6, 8);
    for (int d = 0; d < D; ++d) {
        std::vector<int> can;
        for (std::size_t i = 0; i < f.size(); ++i) if (f[i].can_drop && !gone[i]) can.push_back((int)i);
        int const op = mc::choose(3 + (int)can.size());
        if (op < 2) {
            double const x = xs[op] + d, w = ws[op];
            mc::note("sample %g weight %g", x, w);
            m.push(x, w, live());
            if constexpr (std::is_void<typename Set::weight_type>::value) (**s)(x); else (**s)(x, weight = w);
        } else if (op == 2) {
            mc::note("replaced by a copy");
            std::unique_ptr<mc::fresh<Set> > t(new mc::fresh<Set>); t->make(**s); s = std::move(t);
        } else { int const i = can[op - 3]; mc::note("drop %d", i); drop(**s, i); gone[i] = 1; }
        if (m.n[CNT] + m.n[SOW] + m.n[SUM] + m.n[MAX] > 0) check(**s, m);
        mc::step();
    }
}
void near(char const *what, double got, long double want) { mc::check_near(what, got, want, 1e-9L * (1 + std::fabs(want))); }
#define DROPS(...) [](set &s, int i) { int k = 0; (void)k; __VA_ARGS__ }
#define D(i_, F) if (i == i_) s.drop<F>();

// ---- cached results: user accumulators that keep their result when they are dropped ------------------------
template<class R> struct keep_impl : accumulator_base {
    typedef R result_type;
    keep_impl(dont_care) : n(0) {}
    template<class A> void operator()(A const &) { ++n; }
    template<class A> result_type result(A const &args) const { return make(R(), n + 100 * (int)count(args)); }
    static double make(double, int v) { return v; }
    static std::vector<double> make(std::vector<double> const &, int v) { return std::vector<double>(20, v); }
    static std::string make(std::string const &, int v) { return "a string that is too long to be stored in place " + std::to_string(v); }
    int n;
};
template<class R> struct keep : depends_on<tag::count> { typedef boost::mpl::always<keep_impl<R> > impl; };
}
namespace boost { namespace accumulators {
template<class R> struct droppable_accumulator< ::keep_impl<R> > : droppable_accumulator_base<with_cached_result< ::keep_impl<R> > > {
    template<class A> droppable_accumulator(A const &args) : droppable_accumulator::base(args) {}
    droppable_accumulator(droppable_accumulator const &that) : droppable_accumulator::base(*static_cast<typename droppable_accumulator::base const *>(&that)) {}
};
}}
namespace {
// count is not droppable and goes on, so the result would change if it were not kept
template<class R, class First> void cached()
{
    typedef accumulator_set<double, features<First, droppable<keep<R> > > > set;
    std::unique_ptr<mc::fresh<set> > s(new mc::fresh<set>); s->make();
    int n = 0, kept = -1;
    int const Dp = mc::depth(6, 9);
    for (int d = 0; d < Dp; ++d) {
        int const op = mc::choose(kept < 0 ? 3 : 2);
        if (op == 0) { (**s)(1.); ++n; mc::note("sample"); }
        else if (op == 1) { mc::note("replaced by a copy"); std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>); t->make(**s); s = std::move(t); }
        else { mc::note("drop"); (**s).template drop<keep<R> >(); kept = n + 100 * n; }
        R const want = keep_impl<R>::make(R(), kept < 0 ? n + 100 * n : kept);
        R const got = extractor<keep<R> >()(**s);
        mc::observe(kept); mc::observe(n);
        if (!(got == want)) mc::fail("the result of a droppable accumulator that keeps its result is wrong (n = %d, dropped with %d)", n, kept);
        mc::check_eq("count", (int)count(**s), n);
        mc::step();
    }
}
}
MC_REGISTER
{
    mc::add_config("sum, droppable mean", [] {
        typedef accumulator_set<double, features<tag::sum, droppable<tag::mean> > > set;
        run<set>({ {{SUM}, false}, {{MEAN, SUM, CNT}, true} }, false, DROPS(D(1, tag::mean)),
            [](set &s, model &m) { near("sum", sum(s), m.S(SUM, 1)); mc::check_eq("count", (int)count(s), m.n[CNT]); if (m.n[CNT]) near("mean", mean(s), m.S(SUM, 1) / m.n[CNT]); });
    });
    mc::add_config("droppable count, sum, mean", [] {
        typedef accumulator_set<double, features<droppable<tag::mean>, droppable<tag::sum>, droppable<tag::count> > > set;
        run<set>({ {{MEAN, SUM, CNT}, true}, {{SUM}, true}, {{CNT}, true} }, false, DROPS(D(0, tag::mean) D(1, tag::sum) D(2, tag::count)),
            [](set &s, model &m) { near("sum", sum(s), m.S(SUM, 1)); mc::check_eq("count", (int)count(s), m.n[CNT]); if (m.n[CNT]) near("mean", mean(s), m.S(SUM, 1) / m.n[CNT]); });
    });
    mc::add_config("droppable immediate mean, sum", [] {
        typedef accumulator_set<double, features<droppable<tag::mean(immediate)>, droppable<tag::sum>, tag::max> > set;
        run<set>({ {{IMEAN, CNT}, true}, {{SUM}, true}, {{MAX}, false} }, false, DROPS(D(0, tag::mean) D(1, tag::sum)),
            [](set &s, model &m) { near("sum", sum(s), m.S(SUM, 1)); mc::check_eq("count", (int)count(s), m.n[CNT]); if (m.n[IMEAN]) near("mean", mean(s), m.meanof(IMEAN)); });
    });
    mc::add_config("droppable variance, count", [] {
        typedef accumulator_set<double, features<droppable<tag::variance>, droppable<tag::count> > > set;
        run<set>({ {{VAR, IMEAN, CNT}, true}, {{CNT}, true} }, false, DROPS(D(0, tag::variance) D(1, tag::count)),
            [](set &s, model &m) { mc::check_eq("count", (int)count(s), m.n[CNT]); if (m.n[VAR]) { near("mean", mean(s), m.meanof(IMEAN)); near("variance", variance(s), m.varof(VAR)); } });
    });
    mc::add_config("droppable lazy variance, count", [] {
        typedef accumulator_set<double, features<droppable<tag::variance(lazy)>, droppable<tag::count> > > set;
        run<set>({ {{LVAR, M2, MEAN, SUM, CNT}, true}, {{CNT}, true} }, false, DROPS(D(0, tag::variance) D(1, tag::count)),
            [](set &s, model &m) { mc::check_eq("count", (int)count(s), m.n[CNT]); if (!m.n[CNT]) return; long double mn = m.S(SUM, 1) / m.n[CNT]; near("sum", sum(s), m.S(SUM, 1)); near("mean", mean(s), mn); near("moment", moment<2>(s), m.S(M2, 2) / m.n[CNT]); near("variance", variance(s), m.S(M2, 2) / m.n[CNT] - mn * mn); });
    });
    mc::add_config("droppable lazy variance, immediate mean, moment", [] {
        typedef accumulator_set<double, features<droppable<tag::variance(lazy)>, droppable<tag::mean(immediate)>, droppable<tag::moment<2> > > > set;
        run<set>({ {{LVAR, M2, IMEAN, CNT}, true}, {{IMEAN, CNT}, true}, {{M2, CNT}, true} }, false, DROPS(D(0, tag::variance) D(1, tag::mean) D(2, tag::moment<2>)),
            [](set &s, model &m) { mc::check_eq("count", (int)count(s), m.n[CNT]); if (!m.n[CNT]) return; if (!m.n[IMEAN] || !m.n[M2]) return; long double mn = m.meanof(IMEAN); near("mean", mean(s), mn); near("moment", moment<2>(s), m.S(M2, 2) / m.n[CNT]); near("variance", variance(s), m.S(M2, 2) / m.n[CNT] - mn * mn); });
    });
    mc::add_config("weighted: droppable mean, count", [] {
        typedef accumulator_set<double, features<droppable<tag::mean>, droppable<tag::count>, droppable<tag::sum_of_weights> >, double> set;
        run<set>({ {{WMEAN, SOW, WSUM}, true}, {{CNT}, true}, {{SOW}, true} }, true, DROPS(D(0, tag::mean) D(1, tag::count) D(2, tag::sum_of_weights)),
            [](set &s, model &m) { mc::check_eq("count", (int)count(s), m.n[CNT]); near("sum of weights", sum_of_weights(s), m.W(SOW)); near("sum", sum(s), m.WS(WSUM)); if (m.n[SOW]) near("mean", mean(s), m.WS(WSUM) / m.W(SOW)); });
    });
    mc::add_config("weighted: droppable immediate mean, sum", [] {
        typedef accumulator_set<double, features<droppable<tag::mean(immediate)>, droppable<tag::sum>, tag::count>, double> set;
        run<set>({ {{WIMEAN, SOW}, true}, {{WSUM}, true}, {{CNT}, false} }, true, DROPS(D(0, tag::mean) D(1, tag::sum)),
            [](set &s, model &m) { mc::check_eq("count", (int)count(s), m.n[CNT]); near("sum of weights", sum_of_weights(s), m.W(SOW)); near("sum", sum(s), m.WS(WSUM)); if (m.n[WIMEAN]) near("mean", mean(s), m.WS(WIMEAN) / m.W(WIMEAN)); });
    });
    mc::add_config("droppable min and max", [] {
        typedef accumulator_set<double, features<droppable<tag::min>, droppable<tag::max>, tag::count> > set;
        run<set>({ {{MIN}, true}, {{MAX}, true}, {{CNT}, false} }, false, DROPS(D(0, tag::min) D(1, tag::max)),
            [](set &s, model &m) { if (m.n[MIN]) mc::check_eq("min", (min)(s), *std::min_element(m.x.begin(), m.x.begin() + m.n[MIN])); if (m.n[MAX]) mc::check_eq("max", (max)(s), *std::max_element(m.x.begin(), m.x.begin() + m.n[MAX])); mc::check_eq("count", (int)count(s), m.n[CNT]); });
    });
    mc::add_config("kept result: number", cached<double, tag::count>);
    mc::add_config("kept result: vector", cached<std::vector<double>, tag::count>);
    mc::add_config("kept result: string", cached<std::string, tag::count>);
}
