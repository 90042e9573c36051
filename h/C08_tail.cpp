// C08: the tail cache holds exactly the c most extreme samples in order, each with its own covariate and weight.
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;

template<class LR> struct side;
template<> struct side<right> { template<class S> static bool more_extreme(S a, S b) { return a > b; } };
template<> struct side<left> { template<class S> static bool more_extreme(S a, S b) { return a < b; } };
template<class LR, class Set> void construct(mc::fresh<Set> &f, std::size_t c) { f.make(tag::tail<LR>::cache_size = c); }

template<class S, class LR> struct subjects {
    typedef accumulator_set<S, stats<tag::tail<LR> > > plain_set;
    typedef accumulator_set<S, stats<tag::tail_variate<int, tag::covariate1, LR> > > var_set;
    typedef accumulator_set<S, stats<tag::tail_weights<LR> >, double> wgt_set;
    typedef accumulator_set<S, stats<tag::tail_weights<LR>, tag::tail_variate<int, tag::covariate1, LR> >, double> both_set;
    mc::fresh<plain_set> a; mc::fresh<var_set> b; mc::fresh<wgt_set> c; mc::fresh<both_set> d;
    std::size_t cap; std::vector<S> xs; std::vector<double> ws;
    explicit subjects(std::size_t n) : cap(n) { construct<LR>(a, n); construct<LR>(b, n); construct<LR>(c, n); construct<LR>(d, n); }
    void push(S x, double w)
    {
        int id = (int)xs.size();
        xs.push_back(x); ws.push_back(w);
        (*a)(x); (*b)(x, covariate1 = id); (*c)(x, weight = w); (*d)(x, weight = w, covariate1 = id);
    }
    template<class R> std::vector<S> tail_ok(char const *what, R const &r)
    {
        std::vector<S> want(xs); std::stable_sort(want.begin(), want.end(), [](S p, S q) { return side<LR>::more_extreme(p, q); });
        if (want.size() > cap) want.resize(cap);
        std::vector<S> got(r.begin(), r.end());
        mc::check_eq(what, (std::size_t)r.size(), want.size());
        mc::check_eq(what, got.size(), want.size());
        for (std::size_t i = 0; i < got.size(); ++i) mc::check_eq(what, got[i], want[i]);
        std::size_t j = want.size(); for (auto it = r.end(); it != r.begin() && j; ) { --it; --j; mc::check_eq("tail read from its end", (S)*it, want[j]); }
        return got;
    }
    template<class R> void variates_ok(char const *what, std::vector<S> const &t, R const &r, std::vector<double> const *w)
    {
        std::vector<int> ids(r.begin(), r.end());
        mc::check_eq(what, ids.size(), t.size());
        std::size_t k = ids.size(); for (auto it = r.end(); it != r.begin() && k; ) { --it; --k; mc::check_eq("covariates read from their end", (int)*it, ids[k]); }
        for (std::size_t i = 0; i < ids.size(); ++i) {
            mc::observe(ids[i]);
            if (ids[i] < 0 || ids[i] >= (int)xs.size()) mc::fail("%s: entry %zu holds %d, which was never pushed", what, i, ids[i]);
            if (xs[ids[i]] != t[i]) mc::fail("%s: entry %zu is the covariate of sample %s, but the cached sample is %s", what, i, mc::str(xs[ids[i]]).c_str(), mc::str(t[i]).c_str());
            for (std::size_t j = 0; j < i; ++j) if (ids[j] == ids[i]) mc::fail("%s: the covariate of push %d appears twice", what, ids[i]);
            if (w && (*w)[i] != ws[ids[i]]) mc::fail("%s: entry %zu has weight %g, its sample was pushed with weight %g", what, i, (*w)[i], ws[ids[i]]);
        }
    }
    void check()
    {
        tail_ok("tail", tail(*a));
        // order of extraction: covariate before and after the tail itself
        auto v0 = tail_variate(*b);
        std::vector<int> first(v0.begin(), v0.end());
        std::vector<S> t = tail_ok("tail (with covariate)", tail(*b));
        variates_ok("tail_variate", t, tail_variate(*b), 0);
        auto v1 = tail_variate(*b);
        if (first != std::vector<int>(v1.begin(), v1.end())) mc::fail("tail_variate changed without a new sample");
        std::vector<S> tc = tail_ok("tail (with weights)", tail(*c));
        auto wc = tail_weights(*c); std::vector<double> gw(wc.begin(), wc.end());
        mc::check_eq("tail_weights size", gw.size(), tc.size());
        // weights: the multiset of (sample, weight) pairs must be one that was pushed
        std::vector<char> used(xs.size(), 0);
        for (std::size_t i = 0; i < gw.size(); ++i) {
            std::size_t j = 0;
            for (; j < xs.size(); ++j) if (!used[j] && xs[j] == tc[i] && ws[j] == gw[i]) break;
            if (j == xs.size()) mc::fail("tail_weights: entry %zu pairs sample %s with weight %g, which was not pushed (or is used twice)", i, mc::str(tc[i]).c_str(), gw[i]);
            used[j] = 1;
        }
        std::vector<S> td = tail_ok("tail (with covariate and weights)", tail(*d));
        auto wd = tail_weights(*d); std::vector<double> gd(wd.begin(), wd.end());
        mc::check_eq("tail_weights size", gd.size(), td.size());
        variates_ok("tail_variate with weights", td, tail_variate(*d), &gd);
    }
};
template<class S> std::vector<S> alpha() { std::vector<S> A = ref::alphabet<S>::get(); A.resize(5); return A; }
template<class S, class LR> void words()
{
    std::size_t c = 1 + mc::choose(4);
    subjects<S, LR> s(c); std::vector<S> A = alpha<S>();
    ref::watch w; int D = mc::depth(6, 8); if (mc::thorough()) A.resize(4);
    mc::note("cache size %zu", c);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int k = i < D ? mc::choose((int)A.size() + 1) : 0;
        if (!k) break;
        mc::note("push %s", mc::str(A[k - 1]).c_str());
        s.push(A[k - 1], 1. + 0.5 * i);
    }
    s.check(); mc::step();
}
// looking at the cache at every subset of the steps (looking reorders its internal bookkeeping)
template<class S, class LR> void looks()
{
    std::size_t c = 2 + mc::choose(3);
    subjects<S, LR> s(c); S const A[] = {(S)0, (S)3, (S)5};
    int D = mc::depth(6, 7);
    for (int i = 0; i < D; ++i) {
        S x = mc::pick(A); int look = mc::choose(2);
        mc::note("push %s%s", mc::str(x).c_str(), look ? ", look" : "");
        s.push(x, 1. + i);
        if (look) s.check();
        mc::step();
    }
    s.check(); mc::step();
}
// all permutations of distinct samples
template<class S, class LR> void permutations()
{
    int n = mc::depth(7, 8);
    std::size_t c = 1 + mc::choose(n + 1);
    subjects<S, LR> s(c); std::vector<int> left_; for (int i = 0; i < n; ++i) left_.push_back(i);
    while (!left_.empty()) { int k = mc::choose((int)left_.size()); s.push((S)(left_[k] * 3), 1. + k); left_.erase(left_.begin() + k); }
    s.check(); mc::step();
}
// long histories: pseudo-periodic sequences, cache sizes up to 40
template<class S, class LR> void longer()
{
    static int const caps[] = {1, 2, 3, 5, 8, 16, 17, 40}; static int const mul[] = {1, 7, 31, 53, 96}; static int const mod[] = {97, 13, 4};
    std::size_t c = mc::pick(caps); int a = mc::pick(mul), m = mc::pick(mod), shape = mc::choose(3), every = mc::choose(2);
    subjects<S, LR> s(c);
    int N = mc::depth(120, 400);
    for (int i = 0; i < N; ++i) {
        int r = (i * a) % m; int x = shape == 0 ? r : shape == 1 ? i + r : 500 - i + r;
        s.push((S)x, 1. + i % 5);
        if (every || i % 29 == 28) { s.check(); mc::step(); }
    }
    s.check(); mc::step();
}
// large caches and very long histories
template<class S, class LR> void marathon()
{
    static int const caps[] = {1, 7, 255, 256, 300, 1000}; static int const mul[] = {1, 7919, 65520};
    std::size_t c = mc::pick(caps); int a = mc::pick(mul), m = mc::choose(2) ? 65521 : 257;
    subjects<S, LR> s(c);
    int N = mc::depth(66000, 200000);
    for (int i = 1; i <= N; ++i) {
        s.push((S)((long long)i * a % m), 1. + i % 5);
        if (i == 40 || i == (int)c || i == (int)c + 1 || i == 5000 || i == 65536 || i == N) { s.check(); mc::step(); }
    }
}
// values of very different size, infinities, signed zeros
template<class LR> void extremes()
{
    typedef std::numeric_limits<double> L;
    static double const V[] = {L::max(), L::lowest(), L::infinity(), -L::infinity(), L::denorm_min(), -L::denorm_min(), 0., -0.};
    std::size_t c = 1 + mc::choose(3); subjects<double, LR> s(c); mc::note("cache size %zu", c);
    for (int i = 0, D = mc::depth(4, 5); i < D; ++i) { double x = mc::pick(V); mc::note("push %s", mc::str(x).c_str()); s.push(x, 1. + i); s.check(); mc::step(); }
}
// the ends of the integral types; neighbours that no floating type tells apart
template<class S, class LR> void ends()
{
    typedef std::numeric_limits<S> L;
    S const V[] = {L::max(), (S)(L::max() - 1), (S)(L::max() - 2), L::lowest(), (S)(L::lowest() + 1), (S)0};
    std::size_t c = 1 + mc::choose(3); subjects<S, LR> s(c); mc::note("cache size %zu", c);
    for (int i = 0, D = mc::depth(4, 6); i < D; ++i) { S x = mc::pick(V); mc::note("push %s", mc::str(x).c_str()); s.push(x, i % 3 == 2 ? 0. : 1. + i); s.check(); mc::step(); }
}
// two covariates and the weights of one tail, one covariate being a vector
template<class LR> void companions()
{
    typedef std::vector<double> vec;
    typedef accumulator_set<double, stats<tag::tail_variate<vec, tag::covariate1, LR>, tag::tail_weights<LR>, tag::tail<LR> >, double> set;
    std::size_t c = 1 + mc::choose(3); mc::fresh<set> f; construct<LR>(f, c); set &a = *f; std::vector<double> xs;
    static double const V[] = {1., 2., -4.};
    for (int i = 0, D = mc::depth(6, 7); i < D; ++i) {
        double x = mc::pick(V); vec v(1 + i % 3, i); a(x, weight = 10. + i, covariate1 = v); xs.push_back(x);
        std::vector<double> want(xs); std::sort(want.begin(), want.end(), [](double p, double q) { return side<LR>::more_extreme(p, q); }); if (want.size() > c) want.resize(c);
        auto t = tail(a); std::vector<double> tv(t.begin(), t.end()); auto w = tail_weights(a); std::vector<double> wv(w.begin(), w.end()); auto r = tail_variate(a); std::vector<vec> rv(r.begin(), r.end());
        if (tv != want) mc::fail("the tail is not the %zu most extreme samples", c);
        mc::check_eq("number of weights", wv.size(), tv.size()); mc::check_eq("number of covariates", rv.size(), tv.size());
        for (std::size_t k = 0; k < tv.size(); ++k) {
            int const id = (int)wv[k] - 10; mc::observe(id);
            if (id < 0 || id > i || xs[id] != tv[k]) mc::fail("entry %zu (sample %g) has weight %g", k, tv[k], wv[k]);
            if (rv[k] != vec(1 + id % 3, id)) mc::fail("entry %zu (sample %g, weight %g) has somebody else's covariate", k, tv[k], wv[k]);
        }
        mc::step();
    }
}
// both sides asked of one set: they answer to one name, see known_findings.txt
static void both_sides()
{
    typedef accumulator_set<int, stats<tag::tail<left>, tag::tail<right> > > set;
    mc::fresh<set> f; set &a = f.make(tag::tail<left>::cache_size = 2, tag::tail<right>::cache_size = 2); std::vector<int> xs;
    for (int i = 0; i < 4; ++i) {
        xs.push_back(mc::choose(4)); a(xs.back());
        std::vector<int> up(xs), down; std::sort(up.begin(), up.end()); down.assign(up.rbegin(), up.rend());
        if (up.size() > 2) { up.resize(2); down.resize(2); }
        auto l = extract_result<tag::tail<left> >(a); auto r = extract_result<tag::tail<right> >(a);
        std::vector<int> gl(l.begin(), l.end()), gr(r.begin(), r.end());
        for (int v : gl) mc::observe(v);
        for (int v : gr) mc::observe(v);
        mc::step();
        if (gl == up && gr == down) continue;
        if (gl == gr && (gl == up || gl == down)) mc::known("both-tails-in-one-set");
        else mc::fail("a set with both tails lists %zu and %zu samples, neither those of the left nor those of the right tail", gl.size(), gr.size());
    }
}
// companions that own memory
template<class LR> void strings()
{
    typedef accumulator_set<int, stats<tag::tail_variate<std::string, tag::covariate1, LR> > > set;
    std::size_t c = 1 + mc::choose(3); mc::fresh<set> f; construct<LR>(f, c); set &a = *f; std::vector<int> xs;
    auto name = [](int i) { return "the companion of sample number " + std::to_string(i); };
    for (int i = 0, D = mc::depth(6, 7); i < D; ++i) {
        int x = mc::choose(3); a(x, covariate1 = name(i)); xs.push_back(x);
        auto t = tail(a); std::vector<int> tv(t.begin(), t.end());
        auto v = tail_variate(a); std::vector<std::string> sv(v.begin(), v.end());
        mc::check_eq("number of companions", sv.size(), tv.size());
        for (std::size_t k = 0; k < sv.size(); ++k) { bool ok = false; for (std::size_t j = 0; j < xs.size(); ++j) ok = ok || (sv[k] == name((int)j) && xs[j] == tv[k]); if (!ok) mc::fail("entry %zu has companion '%s'", k, sv[k].c_str()); }
        mc::step();
    }
}
MC_REGISTER {
    mc::add_config("marathon<double,right>", marathon<double, right>, 4);
    mc::add_config("marathon<int,left>", marathon<int, left>, 4);
    mc::add_config("extremes<right>", extremes<right>, 1);
    mc::add_config("extremes<left>", extremes<left>, 1);
    mc::add_config("ends<long long,right>", ends<long long, right>, 1);
    mc::add_config("ends<long long,left>", ends<long long, left>, 1);
    mc::add_config("ends<unsigned,right>", ends<unsigned, right>, 1);
    mc::add_config("ends<unsigned long long,left>", ends<unsigned long long, left>, 1);
    mc::add_config("ends<int,left>", ends<int, left>, 1);
    mc::add_config("ends<short,right>", ends<short, right>, 1);
    mc::add_config("ends<signed char,left>", ends<signed char, left>, 1);
    mc::add_config("companions<right>", companions<right>, 1);
    mc::add_config("companions<left>", companions<left>, 1);
    mc::add_config("both sides", both_sides, 1);
    mc::add_config("strings<right>", strings<right>, 1);
    mc::add_config("strings<left>", strings<left>, 1);
    mc::add_config("words<double,right>", words<double, right>, 4);
    mc::add_config("words<double,left>", words<double, left>, 4);
    mc::add_config("words<int,right>", words<int, right>, 4);
    mc::add_config("words<unsigned,left>", words<unsigned, left>, 4);
    mc::add_config("looks<double,right>", looks<double, right>, 4);
    mc::add_config("looks<double,left>", looks<double, left>, 4);
    mc::add_config("permutations<int,right>", permutations<int, right>, 4);
    mc::add_config("permutations<int,left>", permutations<int, left>, 4);
    mc::add_config("longer<double,right>", longer<double, right>, 4);
    mc::add_config("longer<int,left>", longer<int, left>, 4);
}
