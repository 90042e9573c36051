#pragma once
// User-defined accumulators that record when they are built, updated and dropped; used by C19 and C20.
#include "ref.hpp"
#include <array>
#include <memory>
#include <boost/mpl/always.hpp>
#include <boost/accumulators/framework/accumulator_set.hpp>
#include <boost/accumulators/framework/features.hpp>
#include <boost/accumulators/framework/accumulator_base.hpp>
#include <boost/accumulators/framework/extractor.hpp>
#include <boost/accumulators/framework/parameters/sample.hpp>
#include <boost/accumulators/framework/accumulators/droppable_accumulator.hpp>
using namespace boost::accumulators;

static int const NF = 8;                       // concrete features
static std::vector<int> built, updated, dropped_log;      // in the order it happened

template<int N> struct probe_impl : accumulator_base {
    typedef int result_type;
    int n, drops;
    template<class Args> probe_impl(Args const &) : n(0), drops(0) { built.push_back(N); }
    template<class Args> void operator()(Args const &) { ++n; updated.push_back(N); }
    template<class Args> void on_drop(Args const &) { ++drops; dropped_log.push_back(N); }
    result_type result(dont_care) const { return n; }
};
namespace pr {
    struct f0 : depends_on<> { typedef boost::mpl::always<probe_impl<0> > impl; };
    struct f1 : depends_on<f0> { typedef boost::mpl::always<probe_impl<1> > impl; };
    struct f2 : depends_on<f0> { typedef boost::mpl::always<probe_impl<2> > impl; };
    struct f3 : depends_on<f1, f2> { typedef boost::mpl::always<probe_impl<3> > impl; };
    struct f4 : depends_on<f3, f0> { typedef boost::mpl::always<probe_impl<4> > impl; };
    struct f5 : depends_on<> { typedef boost::mpl::always<probe_impl<5> > impl; };
    struct f6 : depends_on<f5> { typedef boost::mpl::always<probe_impl<6> > impl; };       // another way to provide f1
}
namespace boost { namespace accumulators {
    template<> struct feature_of<pr::f6> : feature_of<pr::f1> {};
}}
namespace pr {
    struct f7 : depends_on<f6, f2> { typedef boost::mpl::always<probe_impl<7> > impl; };   // asks for that way
}
struct shape { std::vector<int> deps; int provides; };
static shape const shapes[NF] = { {{}, 0}, {{0}, 1}, {{0}, 2}, {{1, 2}, 3}, {{3, 0}, 4}, {{}, 5}, {{5}, 1}, {{6, 2}, 7} };

template<class F> struct id_of;
#define PROBE_ID(k) template<> struct id_of<pr::f##k> { static int const value = k; static bool const drop = false; typedef pr::f##k plain; };
PROBE_ID(0) PROBE_ID(1) PROBE_ID(2) PROBE_ID(3) PROBE_ID(4) PROBE_ID(5) PROBE_ID(6) PROBE_ID(7)
template<class F> struct id_of<droppable<F> > { static int const value = id_of<F>::value; static bool const drop = true; typedef F plain; };

// the accumulators of a set, found by visiting it
struct seen_acc { int id; int n; int drops; };
struct look_visitor {
    std::vector<seen_acc> *out;
    template<int N> void operator()(probe_impl<N> &a) const { out->push_back({N, a.n, a.drops}); }
};
template<class Set> std::vector<seen_acc> members(Set &s) { std::vector<seen_acc> v; s.visit(look_visitor{&v}); return v; }

// Which concrete feature provides each abstract one.  The user's own choice wins; where only dependencies ask
// for it, in different ways, either is right, so it is taken from the set; everything needed must be there once.
struct selection {
    std::array<int, NF> by;                    // abstract -> concrete or -1
    selection(std::vector<int> const &user, std::vector<seen_acc> const &present, std::vector<int> const &also = std::vector<int>())
    {
        by.fill(-1);
        std::array<bool, NF> named; named.fill(false);
        for (int c : user) name(c, named);
        for (int c : also) name(c, named);
        for (auto &a : present) {
            if (!named[a.id]) mc::fail("the set holds feature %d, which nobody asked for", a.id);
            int &b = by[shapes[a.id].provides];
            if (b >= 0) mc::fail("the set holds two accumulators (%d and %d) for one feature", b, a.id);
            b = a.id;
        }
        for (int c : user) if (by[shapes[c].provides] != c) mc::fail("feature %d was asked for, %d is there instead", c, by[shapes[c].provides]);
        for (auto &a : present) for (int d : shapes[a.id].deps) if (by[shapes[d].provides] < 0) mc::fail("feature %d is there without %d, on which it depends", a.id, d);
    }
    static void name(int c, std::array<bool, NF> &named) { named[c] = true; for (int d : shapes[c].deps) name(d, named); }
    std::vector<int> deps(int concrete) const { std::vector<int> r; for (int d : shapes[concrete].deps) r.push_back(by[shapes[d].provides]); return r; }
    void close(int c, std::array<bool, NF> &in) const { if (in[c]) return; in[c] = true; for (int d : deps(c)) close(d, in); }
};
