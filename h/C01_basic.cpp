// C01: count / sum / min / max are exact for every history.
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
using namespace boost::accumulators;

template<class S> struct model {
    std::size_t n = 0; S s = S(), lo = S(), hi = S();
    void push(S x) { s = (S)(s + x); if (!n || x < lo) lo = x; if (!n || x > hi) hi = x; ++n; }
};

template<class S, bool WithSum, class Set> void compare(Set &a, model<S> const &m)
{
    mc::check_eq("count", count(a), m.n);
    if (m.n) {
        mc::check_eq("min", (min)(a), m.lo);
        mc::check_eq("max", (max)(a), m.hi);
    }
}
template<class S, class Set> void compare_sum(Set &a, model<S> const &m, std::vector<S> const &all)
{
    if (std::is_floating_point<S>::value) {
        long double s = 0, sc = 0; for (S x : all) { s += x; sc += std::fabs((long double)x); }
        mc::check_near("sum", sum(a), s, sc * (all.size() + 1) * std::numeric_limits<S>::epsilon());
    } else mc::check_eq("sum", sum(a), m.s);
}

// every history up to the bound, over the alphabet of the type
template<class S> void words()
{
    typedef accumulator_set<S, stats<tag::count, tag::sum, tag::min, tag::max> > set;
    mc::fresh<set> f; set &a = f.make();
    model<S> m; std::vector<S> all;
    std::vector<S> A = ref::alphabet<S>::get();
    ref::watch w;
    int D = mc::depth(6, 7);
    for (int i = 0; ; ++i) {
        if (w.every) { compare<S, true>(a, m); compare_sum(a, m, all); mc::step(); }
        int c = i < D ? mc::choose((int)A.size() + 1) : 0;
        if (c == 0) break;
        S x = A[c - 1];
        mc::note("push %s", mc::str(x).c_str());
        a(x); m.push(x); all.push_back(x);
    }
    compare<S, true>(a, m); compare_sum(a, m, all); mc::step();
}

// each feature alone, with the extreme values of the type
template<class S> void alone()
{
    mc::fresh<accumulator_set<S, stats<tag::count> > > f1; auto &c = f1.make();
    mc::fresh<accumulator_set<S, stats<tag::min> > > f2; auto &lo = f2.make();
    mc::fresh<accumulator_set<S, stats<tag::max> > > f3; auto &hi = f3.make();
    mc::fresh<accumulator_set<S, stats<tag::sum> > > f4; auto &su = f4.make();
    typedef std::numeric_limits<S> L;
    S const half = (S)(L::max() / 2);
    std::vector<S> A = {L::lowest(), L::max(), S(), S(1), half};
    if (std::is_signed<S>::value) { A.push_back((S)-1); A.push_back((S)(-half)); }
    if (std::is_floating_point<S>::value) { A.push_back(L::min()); A.push_back((S)-L::min()); A.push_back((S)-0.0); A.push_back(L::epsilon()); }
    model<S> m; bool sum_ok = true;
    int D = mc::depth(4, 5);
    for (int i = 0; i <= D; ++i) {
        mc::check_eq("count", count(c), m.n);
        if (m.n) { mc::check_eq("min", (min)(lo), m.lo); mc::check_eq("max", (max)(hi), m.hi); }
        if (sum_ok && std::is_integral<S>::value) mc::check_eq("sum", sum(su), m.s);
        mc::step();
        if (i == D) break;
        S x = mc::pick(A);
        mc::note("push %s", mc::str(x).c_str());
        if (std::is_integral<S>::value) {   // no claim once the exact sum leaves the type
            __int128 s = (__int128)m.s + (__int128)x;
            if (s > (__int128)L::max() || s < (__int128)L::lowest()) sum_ok = false;
        }
        c(x); lo(x); hi(x); if (sum_ok) su(x);
        if (sum_ok) m.push(x); else { if (x < m.lo || !m.n) m.lo = x; if (x > m.hi || !m.n) m.hi = x; ++m.n; }
    }
}

// every short word repeated cyclically into a long history
template<class S> void cyclic()
{
    typedef accumulator_set<S, stats<tag::max, tag::sum, tag::min, tag::count> > set;
    std::vector<S> A = ref::alphabet<S>::get();
    int L = 1 + mc::choose(3);
    std::vector<S> word; for (int i = 0; i < L; ++i) word.push_back(A[mc::choose((int)A.size())]);
    int const N = mc::depth(70000, 300000);
    mc::fresh<set> f; set &a = f.make();
    model<S> m; long double s = 0, sc = 0;
    mc::note("word of length %d repeated to %d samples", L, N);
    for (int i = 0; i < N; ++i) {
        S x = word[i % L];
        a(x); m.push(x); s += x; sc += std::fabs((long double)x);
        if (count(a) != m.n || (min)(a) != m.lo || (max)(a) != m.hi) mc::fail("after %d samples: count %zu min %s max %s", i + 1, (std::size_t)count(a), mc::str((min)(a)).c_str(), mc::str((max)(a)).c_str());
        if (std::is_integral<S>::value ? sum(a) != m.s : std::fabs(sum(a) - s) > sc * (i + 1) * std::numeric_limits<S>::epsilon()) mc::fail("after %d samples: sum %s", i + 1, mc::str(sum(a)).c_str());
    }
    mc::observe(count(a)); mc::observe(sum(a)); mc::observe((min)(a)); mc::observe((max)(a)); mc::step();
}

MC_REGISTER {
    mc::add_config("words<int>", words<int>);
    mc::add_config("words<unsigned>", words<unsigned>);
    mc::add_config("words<double>", words<double>);
    mc::add_config("words<float>", words<float>);
    mc::add_config("words<long long>", words<long long>);
    mc::add_config("words<short>", words<short>);
    mc::add_config("words<long double>", words<long double>);
    mc::add_config("alone<int>", alone<int>);
    mc::add_config("alone<unsigned>", alone<unsigned>);
    mc::add_config("alone<double>", alone<double>);
    mc::add_config("alone<float>", alone<float>);
    mc::add_config("alone<long long>", alone<long long>);
    mc::add_config("alone<signed char>", alone<signed char>);
    mc::add_config("alone<short>", alone<short>);
    mc::add_config("alone<unsigned char>", alone<unsigned char>);
    mc::add_config("alone<unsigned long long>", alone<unsigned long long>);
    mc::add_config("alone<long double>", alone<long double>);
    mc::add_config("cyclic<float>", cyclic<float>);
    mc::add_config("cyclic<int>", cyclic<int>);
    mc::add_config("cyclic<double>", cyclic<double>);
}
