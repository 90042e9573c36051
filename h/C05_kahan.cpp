// C05: the compensated sums stay within the error bound of compensated summation.
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
typedef __float128 q;

// exact sum and magnitude (quad precision holds every partial sum of the alphabet)
struct acc { q s = 0, a = 0; long n = 0; void push(q x) { s += x; a += x < 0 ? -x : x; ++n; } };

template<class S, class R> void in_bound(char const *what, R got, acc const &m, int rounded_terms)
{
    // Knuth/Kahan: |error| <= (2 eps + O(n eps^2)) * sum |x|; eps = unit roundoff.  A product
    // x*w adds one rounding per term, and the returned value one more.
    q u = (q)std::numeric_limits<S>::epsilon() / 2;
    q bound = ((2 + rounded_terms + 1) * u + 4 * (q)m.n * u * u) * m.a;
    q err = (q)got - m.s; if (err < 0) err = -err;
    mc::observe(got);
    if (mc::verbose()) mc::note("    %s = %.9g, exact %.18Lg", what, (double)got, (long double)m.s);
    if (!(err <= bound)) mc::fail("%s after %ld samples: got %.17g, exact %.20Lg, error %.3Lg exceeds the compensated-summation bound %.3Lg", what, m.n, (double)got, (long double)m.s, (long double)err, (long double)bound);
}

template<class S> std::vector<S> alpha();
template<> std::vector<float> alpha<float>() { return {1.f, 0.1f, 1e-6f, 16777216.f, -3.f, 3e-8f, -16777216.f}; }
template<> std::vector<double> alpha<double>() { return {1., 0.1, 1e-12, 9007199254740992., -3., 1e-16, -9007199254740992.}; }

template<class S> struct subjects {
    typedef accumulator_set<S, stats<tag::sum_kahan> > set1;
    typedef accumulator_set<S, stats<tag::sum(kahan)> > set2;
    typedef accumulator_set<S, stats<tag::weighted_sum_kahan, tag::sum_of_weights_kahan>, S> set3;
    typedef accumulator_set<S, stats<tag::sum_of_variates_kahan<S, tag::covariate1> > > set4;
    typedef accumulator_set<S, stats<tag::weighted_sum_of_variates_kahan<S, tag::covariate1> >, S> set5;
    typedef accumulator_set<S, stats<tag::sum(kahan)>, S> set6;
    mc::fresh<set1> a; mc::fresh<set2> b; mc::fresh<set3> c; mc::fresh<set4> d; mc::fresh<set5> e; mc::fresh<set6> f;
    acc x, w, xw;
    // a starting value counts as the first thing summed
    explicit subjects(S first) { a.make(sample = first); b.make(sample = first); c.make(sample = first, weight = (S)1); d.make(covariate1 = first); e.make(covariate1 = first, weight = (S)1); f.make(sample = first, weight = (S)1); x.push(first); w.push(1); xw.push(first); }
    subjects() { a.make(); b.make(); c.make(); d.make(); e.make(); f.make(); }
    void push(S v, S wt)
    {
        (*a)(v); (*b)(v); (*c)(v, weight = wt); (*d)((S)7, covariate1 = v); (*e)((S)7, weight = wt, covariate1 = v); (*f)(v, weight = wt);
        x.push(v); w.push(wt); xw.push((q)v * (q)wt);
    }
    void check()
    {
        in_bound<S>("sum_kahan", sum_kahan(*a), x, 0);
        in_bound<S>("sum (through sum_kahan)", sum(*a), x, 0);
        in_bound<S>("sum(kahan)", sum(*b), x, 0);
        in_bound<S>("weighted_sum_kahan", weighted_sum_kahan(*c), xw, 1);
        in_bound<S>("sum_of_weights_kahan", sum_of_weights_kahan(*c), w, 0);
        in_bound<S>("sum_of_variates_kahan", sum_of_variates_kahan(*d), x, 0);
        in_bound<S>("weighted_sum_of_variates_kahan", weighted_sum_of_variates_kahan(*e), xw, 1);
        in_bound<S>("sum(kahan) with weights", weighted_sum_kahan(*f), xw, 1);
    }
};

template<class S> void words()
{
    subjects<S> s; std::vector<S> A = alpha<S>(); S const W[] = {(S)1, (S)0.3};   // the weight alternates in the quick tier
    int D = mc::depth(6, 6);
    ref::watch w; int const wfirst = mc::thorough() ? 0 : mc::choose(2);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int const n = (int)A.size();
        int c = i < D ? mc::choose(mc::thorough() ? n * 2 + 1 : n + 1) : 0;
        if (!c) break;
        --c; if (!mc::thorough()) c += wfirst ? (i % 2 ? n : 0) : (i % 2 ? 0 : n);
        mc::note("push %s weight %s", mc::str(A[c % A.size()]).c_str(), mc::str(W[c / A.size()]).c_str());
        s.push(A[c % A.size()], W[c / A.size()]);
    }
    s.check(); mc::step();
}
// a prefix, then a word repeated: the error of plain summation grows with the length, the bound does not
template<class S> void cyclic()
{
    subjects<S> s; std::vector<S> A = alpha<S>(); S const W[] = {(S)1, (S)0.3, (S)2.7};
    int pre = mc::choose((int)A.size() + 1); if (pre) s.push(A[pre - 1], W[0]);
    int L = 1 + mc::choose(2); std::vector<std::pair<S, S> > word; for (int i = 0; i < L; ++i) { S v = mc::pick(A); S t = mc::pick(W); word.push_back({v, t}); }
    int N = mc::depth(1500, 20000);
    for (int i = 0; i < N; ++i) { s.push(word[i % L].first, word[i % L].second); if (i % 100 == 99 || i < 20) { s.check(); mc::step(); } }
}
template<class S> void start()
{
    std::vector<S> A = alpha<S>(); subjects<S> s(mc::pick(A));
    s.check(); mc::step();
    int L = 1 + mc::choose(2); std::vector<S> word; for (int i = 0; i < L; ++i) word.push_back(mc::pick(A));
    for (int i = 0; i < mc::depth(300, 5000); ++i) { s.push(word[i % L], i % 2 ? (S)0.3 : (S)1); if (i % 20 == 19 || i < 10) { s.check(); mc::step(); } }
}
// integral sample types are summed exactly
static void integers()
{
    typedef accumulator_set<int, stats<tag::sum_kahan> > set; typedef accumulator_set<int, stats<tag::weighted_sum_kahan>, int> wset;
    mc::fresh<set> f; set &a = f.make(); mc::fresh<wset> g; wset &b = g.make();
    int const V[] = {0, 1, -5, 1000003}; int s = 0, t = 0;
    for (int i = 0; i < mc::depth(5, 7); ++i) {
        int x = mc::pick(V), w = 1 + 2 * (i & 1);
        a(x); b(x, weight = w); s += x; t += x * w;
        mc::check_eq("sum_kahan<int>", sum_kahan(a), s); mc::check_eq("weighted_sum_kahan<int>", weighted_sum_kahan(b), t); mc::step();
    }
}
template<class S, class W> void integers_of()
{
    typedef accumulator_set<S, stats<tag::sum_kahan, tag::sum_of_variates_kahan<S, tag::covariate1> > > set; typedef accumulator_set<S, stats<tag::weighted_sum_kahan, tag::sum_of_weights_kahan, tag::weighted_sum_of_variates_kahan<S, tag::covariate1> >, W> wset;
    mc::fresh<set> f; set &a = f.make(); mc::fresh<wset> g; wset &b = g.make();
    S const big = (S)(std::numeric_limits<S>::max() / 40); S const V[] = {(S)0, (S)1, big, std::is_signed<S>::value ? (S)-big : (S)(big - 1)};
    typedef decltype(S() * W()) P;
    P t = 0; S s = 0; W u = 0;
    for (int i = 0; i < mc::depth(5, 7); ++i) {
        S x = mc::pick(V); W w = (W)(1 + 2 * (i & 1));
        mc::note("push %s weight %s", mc::str(x).c_str(), mc::str(w).c_str());
        a(x, covariate1 = x); b(x, weight = w, covariate1 = x); s = (S)(s + x); t = (P)(t + (P)x * w); u = (W)(u + w);
        mc::check_eq("sum_kahan", sum_kahan(a), s); mc::check_eq("sum_of_variates_kahan", sum_of_variates_kahan(a), s);
        mc::check_eq("weighted_sum_kahan", weighted_sum_kahan(b), t); mc::check_eq("weighted_sum_of_variates_kahan", weighted_sum_of_variates_kahan(b), t); mc::check_eq("sum_of_weights_kahan", sum_of_weights_kahan(b), u); mc::step();
    }
}
// sample and weight of different types: the sums are kept in the type of the product
template<class S, class W> void mixed()
{
    typedef accumulator_set<S, stats<tag::weighted_sum_kahan, tag::sum_of_weights_kahan, tag::weighted_sum_of_variates_kahan<S, tag::covariate1> >, W> set;
    typedef decltype(S() * W()) P;
    mc::fresh<set> f; set &a = f.make(); acc xw, w, vw;
    S const V[] = {(S)1, (S)-3, (S)16777217, (S)0.1, (S)7}; W const T[] = {(W)1, (W)0.3, (W)1000000, (W)3};
    S word[2]; W ws[2]; for (int i = 0; i < 2; ++i) { word[i] = mc::pick(V); ws[i] = mc::pick(T); }
    int const lead = mc::choose(2);
    if (lead) { a(V[2], weight = T[2], covariate1 = V[4]); xw.push((q)V[2] * (q)T[2]); w.push(T[2]); vw.push((q)V[4] * (q)T[2]); }
    for (int i = 0; i < mc::depth(150, 5000); ++i) {
        a(word[i % 2], weight = ws[i % 2], covariate1 = word[1 - i % 2]); xw.push((q)word[i % 2] * (q)ws[i % 2]); w.push(ws[i % 2]); vw.push((q)word[1 - i % 2] * (q)ws[i % 2]);
        if (i % 10 == 9 || i < 6) { in_bound<P>("weighted_sum_kahan", weighted_sum_kahan(a), xw, 1); in_bound<W>("sum_of_weights_kahan", sum_of_weights_kahan(a), w, 0); in_bound<P>("weighted_sum_of_variates_kahan", weighted_sum_of_variates_kahan(a), vw, 1); mc::step(); }
    }
}
template<> std::vector<long double> alpha<long double>() { return {1.L, 0.1L, 1e-15L, 18446744073709551616.L, -3.L, 1e-19L, -18446744073709551616.L}; }
MC_REGISTER {
    mc::add_config("words<double>", words<double>, 8);
    mc::add_config("words<float>", words<float>, 8);
    mc::add_config("cyclic<double>", cyclic<double>, 2);
    mc::add_config("cyclic<float>", cyclic<float>, 2);
    mc::add_config("start<double>", start<double>, 2);
    mc::add_config("start<float>", start<float>, 2);
    mc::add_config("start<long double>", start<long double>, 2);
    mc::add_config("integers", integers);
    mc::add_config("integers<long long,int>", integers_of<long long, int>);
    mc::add_config("integers<long long,long long>", integers_of<long long, long long>);
    mc::add_config("integers<unsigned,unsigned>", integers_of<unsigned, unsigned>);
    mc::add_config("integers<unsigned long long,unsigned>", integers_of<unsigned long long, unsigned>);
    mc::add_config("mixed<int,double>", mixed<int, double>);
    mc::add_config("mixed<float,double>", mixed<float, double>);
    mc::add_config("mixed<double,float>", mixed<double, float>);
    mc::add_config("mixed<double,int>", mixed<double, int>);
    mc::add_config("mixed<int,float>", mixed<int, float>);
}
