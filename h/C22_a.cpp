#include "ref.hpp"
#include <memory>
#include <string>
#include <boost/mpl/always.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
// C22: how the sample, its weight and other named values are passed -- by position or by name, in whatever
// order, together with names nobody uses -- does not matter, for adding samples, for making a set and for
// reading results.
using namespace boost::accumulators;
namespace my {
    BOOST_PARAMETER_KEYWORD(tag, unused)
    BOOST_PARAMETER_KEYWORD(tag, unused2)
    BOOST_PARAMETER_KEYWORD(tag, text)
}
static void same(char const *what, double got, long double want) { mc::check_near(what, got, want, 1e-9L * (1 + std::fabs(want))); }

// ---- passing samples --------------------------------------------------------------------------------
template<class S> void pass(S &s, int how, double x, double w, double c)
{
    double const x2 = x; int const xi = (int)x;
    switch (how) {
    case 0: s(x, weight = w, covariate1 = c); break;
    case 1: s(x, covariate1 = c, weight = w); break;
    case 2: s(sample = x, weight = w, covariate1 = c); break;
    case 3: s(weight = w, sample = x, covariate1 = c); break;
    case 4: s(weight = w, covariate1 = c, sample = x); break;
    case 5: s(covariate1 = c, weight = w, sample = x); break;
    case 6: s(covariate1 = c, sample = x2, weight = w); break;
    case 7: s(sample = x, covariate1 = c, weight = w); break;
    case 8: s(x2, my::unused = 1e9, weight = w, my::unused2 = std::string("x"), covariate1 = c); break;
    case 9: s(covariate1 = c, my::unused = 7, sample = x, weight = w); break;
    case 10: s(xi, weight = (float)w, covariate1 = (long)c); break;          // other types, converted
    }
}
static int const HOW = 11;
static double const xs[] = {3., -2., 8.}, ws[] = {1., 2., 0.5};
static void passing()
{
    typedef accumulator_set<double, stats<tag::sum, tag::sum_of_weights, tag::count, tag::mean(immediate), tag::min, tag::covariance<double, tag::covariate1>, tag::tail_variate<double, tag::covariate1, left> >, double> set;
    mc::fresh<set> s; s.make(tag::tail<left>::cache_size = 8);
    long double sx = 0, sw = 0, sc = 0, sxc = 0, mn = 1e9; int n = 0;
    std::vector<std::pair<double, double> > all;
    int const D = mc::depth(3, 4);
    for (int d = 0; d < D; ++d) {
        int const how = mc::choose(HOW), k = mc::choose(3);
        double const x = xs[k] + d, w = ws[(k + d) % 3], c = 4 * d - k;
        mc::note("call form %d: sample %g weight %g covariate %g", how, x, w, c);
        pass(*s, how, x, w, c);
        ++n; sx += w * x; sw += w; sc += w * c; sxc += w * x * c; mn = std::min(mn, (long double)x); all.push_back({x, c});
        same("sum", sum(*s), sx); same("sum_of_weights", sum_of_weights(*s), sw); mc::check_eq("count", (int)count(*s), n);
        same("mean", mean(*s), sx / sw); same("min", (min)(*s), mn);
        same("mean of covariates", (weighted_mean_of_variates<double, tag::covariate1>(*s)), sc / sw);
        same("covariance", covariance(*s), sxc / sw - sx / sw * (sc / sw));
        std::sort(all.begin(), all.end());
        auto v = tail_variate(*s); mc::check_eq("number of tail variates", (int)v.size(), n);
        bool ties = false; for (int i = 1; i < n; ++i) ties |= all[i].first == all[i - 1].first;
        int i = 0; if (!ties) for (double q : v) mc::check_eq("tail variate", q, all[i++].second);
        mc::step();
    }
}

// ---- making sets and reading ---------------------------------------------------------------------------
struct three { double p; int bins; int cache; };
template<class F> void make(F &f, int how, double p, std::size_t bins, std::size_t cache)
{
    switch (how) {
    case 0: f.make(quantile_probability = p, density_num_bins = bins, density_cache_size = cache); break;
    case 1: f.make(density_num_bins = bins, quantile_probability = p, density_cache_size = cache); break;
    case 2: f.make(density_cache_size = cache, density_num_bins = bins, quantile_probability = p); break;
    case 3: f.make(density_cache_size = cache, quantile_probability = p, density_num_bins = bins, my::unused = 5); break;
    case 4: f.make(quantile_probability = p, density_cache_size = cache, density_num_bins = bins); break;
    case 5: f.make(my::unused2 = 'c', density_num_bins = bins, density_cache_size = cache, quantile_probability = p); break;
    case 6: f.make(0., quantile_probability = p, density_num_bins = bins, density_cache_size = cache); break;  // a sample first: the initial value
    case 7: f.make(tag::density::num_bins = bins, tag::density::cache_size = cache, quantile_probability = p); break;
    case 8: f.make(sample = 0., density_num_bins = (int)bins, quantile_probability = (float)p, density_cache_size = (unsigned)cache); break;
    }
}
static void making()
{
    typedef accumulator_set<double, stats<tag::p_square_quantile, tag::density, tag::sum> > set;
    static double const ps[] = {0.25, 0.75};
    int const how = mc::choose(9), pi = mc::choose(2), bins = 2 + 2 * mc::choose(2), cache = 2 + mc::choose(2), seq = mc::choose(4);
    mc::fresh<set> s, r; make(s, how, ps[pi], bins, cache); make(r, 0, ps[pi], bins, cache);
    mc::note("form %d: p %g bins %d cache %d", how, ps[pi], bins, cache);
    long double t = 0;
    for (int i = 0; i < 9; ++i) {
        double const x = ((i * 7 + seq * 3) % 11) + 0.5;
        (*s)(x); (*r)(x); t += x;
        same("sum", sum(*s), t);
        if (i >= 5) same("quantile", p_square_quantile(*s), p_square_quantile(*r));
        if (i + 1 >= cache) {
            auto a = density(*s), b = density(*r);
            mc::check_eq("bins", (int)a.size(), bins + 2);
            for (int k = 0; k < bins + 2; ++k) { same("bin position", a[k].first, b[k].first); same("bin", a[k].second, b[k].second); }
        }
        mc::step();
    }
}
template<class S> double ask(S const &s, int how, double p)
{
    switch (how) {
    case 0: return quantile(s, quantile_probability = p);
    case 1: return quantile(s, my::unused = 3, quantile_probability = p);
    case 2: return quantile(s, quantile_probability = p, my::unused2 = 3.5);
    case 3: return extract_result<tag::tail_quantile<right> >(s, quantile_probability = p);
    case 4: return extract_result<tag::quantile>(s, quantile_probability = p);
    case 5: return extractor<tag::tail_quantile<right> >()(s, quantile_probability = p);
    case 6: return find_accumulator<tag::tail_quantile<right> >(s).result((accumulator = s, quantile_probability = p));
    case 7: return quantile((accumulator = s, quantile_probability = p));
    case 8: return quantile((my::unused = 1, quantile_probability = p, accumulator = s));
    case 9: return find_accumulator<tag::quantile>(s).result((quantile_probability = p, accumulator = s));
    }
    return 0;
}
static void reading()
{
    typedef accumulator_set<double, stats<tag::tail_quantile<right>, tag::sum> > set;
    mc::fresh<set> s; s.make(right_tail_cache_size = 10);
    int const n = 3 + mc::choose(5);
    for (int i = 0; i < n; ++i) (*s)((double)((i * 5) % 8));
    static double const ps[] = {0.5, 0.7, 0.9};
    double const want0 = quantile(*s, quantile_probability = 0.5);
    for (int d = 0; d < mc::depth(3, 4); ++d) {
        double const p = mc::pick(ps);
        int const how = mc::choose(10);
        // ranks from above: ceil(n*(1-p))
        std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back((i * 5) % 8);
        std::sort(v.rbegin(), v.rend());
        std::size_t k = (std::size_t)std::ceil(n * (1. - p));
        mc::note("form %d: p %g", how, p);
        mc::check_eq("quantile", ask(*s, how, p), v[k - 1]);
        mc::step();
    }
    mc::check_eq("quantile, as before", quantile(*s, quantile_probability = 0.5), want0);
}
// the extractors agree with the accumulators they stand for
static void finding()
{
    typedef accumulator_set<double, stats<tag::mean(immediate), tag::variance(lazy), tag::max> > set;
    mc::fresh<set> s; s.make();
    int const n = 1 + mc::choose(4);
    for (int i = 0; i < n; ++i) (*s)(mc::pick(xs));
    set const &c = *s;
    same("mean", find_accumulator<tag::mean>(c).result((accumulator = c)), mean(c));
    same("mean", find_accumulator<tag::immediate_mean>(*s).result((accumulator = *s)), mean(c));
    same("mean", extract_result<tag::mean>(c), mean(c));
    same("mean", extract::mean(c), mean(c));
    same("variance", extract_result<tag::variance>(c), variance(c));
    same("variance", extract_result<tag::lazy_variance>(c), variance(c));
    same("variance", c.extract<tag::variance>().result((accumulator = c)), variance(c));
    same("max", extractor<tag::max>()(c), (max)(c));
    mc::check_true("the same accumulator every time", &find_accumulator<tag::mean>(c) == &c.extract<tag::immediate_mean>() && &find_accumulator<tag::mean>(*s) == &find_accumulator<tag::mean>(c));
    set const copy(c);
    mc::check_true("another set, another accumulator", &find_accumulator<tag::mean>(c) != &find_accumulator<tag::mean>(copy));
    mc::step();
}
// ---- visiting ----------------------------------------------------------------------------------------------
struct tally { std::vector<std::string> *out; template<class A> void operator()(A &) const { out->push_back(__PRETTY_FUNCTION__); } };
template<class Feature> struct is_feature { template<class A> struct apply : std::is_same<Feature, typename A::feature_tag> {}; };
struct any { template<class A> struct apply : boost::mpl::true_ {}; };
struct none { template<class A> struct apply : boost::mpl::false_ {}; };
template<class Feature> struct not_feature { template<class A> struct apply : boost::mpl::bool_<!std::is_same<Feature, typename A::feature_tag>::value> {}; };
static void visiting()
{
    typedef accumulator_set<double, stats<tag::mean, tag::variance(lazy), tag::max> > set;   // and sum, count, moment<2>
    mc::fresh<set> s; s.make();
    std::vector<std::string> v[6];
    auto n = [](std::vector<std::string> const &x) { return (int)x.size(); };
    int const pushes = mc::choose(3);
    for (int i = 0; i < pushes; ++i) (*s)(xs[i]);
    s->visit(tally{&v[0]});
    mc::check_eq("accumulators visited", n(v[0]), 6);
    auto u = v[0]; std::sort(u.begin(), u.end());
    mc::check_true("an accumulator was visited twice", std::unique(u.begin(), u.end()) == u.end());
    s->visit_if<any>(tally{&v[1]}); mc::check_true("visit_if with everything selected is visit", v[0] == v[1]);
    s->visit_if<none>(tally{&v[2]}); mc::check_eq("visit_if with nothing selected", n(v[2]), 0);
    s->visit_if<is_feature<tag::sum> >(tally{&v[3]}); mc::check_eq("visit_if with one selected", n(v[3]), 1);
    s->visit_if<not_feature<tag::sum> >(tally{&v[4]}); mc::check_eq("visit_if with one left out", n(v[4]), 5);
    std::vector<std::string> w; for (auto &t : v[0]) if (t != v[3][0]) w.push_back(t);
    mc::check_true("visit_if keeps the order of visit", w == v[4]);
    mc::check_eq("count", (int)count(*s), pushes);
    mc::step();
}
// ---- named values that are temporaries -----------------------------------------------------------------------
template<int N> struct text_impl : accumulator_base {
    typedef std::string result_type;
    std::string last;
    text_impl(dont_care) {}
    template<class A> void operator()(A const &args) { std::string t = args[my::text]; last = t; }
    result_type result(dont_care) const { return last; }
};
template<int N> struct text : depends_on<> { typedef boost::mpl::always<text_impl<N> > impl; };
static void temporaries()
{
    typedef accumulator_set<double, features<text<0>, text<1>, tag::count> > set;
    mc::fresh<set> s; s.make();
    for (int d = 0; d < 3; ++d) {
        int const how = mc::choose(3);
        std::string const want = "a text long enough not to be kept in place " + std::to_string(d);
        std::string lv = want;
        if (how == 0) (*s)(1., my::text = want);
        else if (how == 1) (*s)(1., my::text = lv);
        else (*s)(1., my::text = std::string(want));
        bool const ok = extractor<text<0> >()(*s) == want && extractor<text<1> >()(*s) == want;
        if (!ok && how == 2) { mc::known("named-rvalue-consumed"); }
        else if (!ok) mc::fail("a named value did not reach every accumulator");
        if (how == 1 && lv != want) mc::fail("the caller's named value was changed");
        mc::check_eq("count", (int)count(*s), d + 1);
        mc::step();
    }
}
MC_REGISTER
{
    mc::add_config("passing samples", passing, 4);
    mc::add_config("making sets", making);
    mc::add_config("reading results", reading, 2);
    mc::add_config("finding accumulators", finding);
    mc::add_config("visiting accumulators", visiting);
    mc::add_config("named temporaries", temporaries);
}
