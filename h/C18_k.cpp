// boost/archive
#include "c18.hpp"
// C18 on droppable statistics: what was dropped before the set was saved stays dropped in the one that is loaded,
// even if that one had dropped nothing or other things; what was not goes on.  The reference is a twin that takes
// the same samples and drops and is never saved.
namespace {
template<class R> struct keep_impl : accumulator_base {
    typedef R result_type;
    keep_impl(dont_care) : n(0) {}
    template<class A> void operator()(A const &) { ++n; }
    template<class A> result_type result(A const &args) const { result_type r = result_type(); set(r, n + 100 * (int)count(args)); return r; }
    static void set(int &r, int v) { r = v; }
    static void set(vec &r, int v) { r.assign(3, v); }
    template<class Ar> void serialize(Ar &ar, unsigned) { ar & n; }
    int n;
};
struct keep_int : depends_on<tag::count> { typedef boost::mpl::always<keep_impl<int> > impl; };
struct keep_vec : depends_on<tag::count> { typedef boost::mpl::always<keep_impl<vec> > impl; };
}
namespace boost { namespace accumulators {
template<class R> struct droppable_accumulator<keep_impl<R> > : droppable_accumulator_base<with_cached_result<keep_impl<R> > > {
    template<class A> droppable_accumulator(A const &args) : droppable_accumulator::base(args) {}
    droppable_accumulator(droppable_accumulator const &that) : droppable_accumulator::base(*static_cast<typename droppable_accumulator::base const *>(&that)) {}
};
} }
namespace {
// Set: U features that can be dropped, drop(s, i), read(s)
template<class K> void run()
{
    typedef typename K::set set;
    std::unique_ptr<mc::fresh<set> > s(new mc::fresh<set>);
    mc::fresh<set> twin;
    K::make(*s); K::make(twin);
    std::vector<int> gone(K::U, 0);
    int const D = mc::depth(5, 6);
    int clock = 0;
    auto push = [&] { K::push(**s, clock % 3, clock); K::push(*twin, clock % 3, clock); ++clock; };
    auto check = [&] { vec a, b; K::read(**s, a); K::read(*twin, b); for (double v : a) mc::observe(v); if (!alike(a, b)) mc::fail("results %s; the set that was never saved gives %s", show(a).c_str(), show(b).c_str()); };
    push(); push();
    for (int d = 0; d < D; ++d) {
        std::vector<int> can;
        for (int i = 0; i < K::U; ++i) if (!gone[i]) can.push_back(i);
        int const op = mc::choose(5 + (int)can.size());
        if (op == 0) { mc::note("sample"); push(); }
        else if (op < 5) {
            bool const text = op < 3, used = op % 2;
            mc::note("saved and loaded (%s archive, %s set)", text ? "text" : "binary", used ? "into one that has dropped other features" : "new");
            std::ostringstream o;
            if (text) { boost::archive::text_oarchive a(o); (**s).serialize(a, 0); }
            else { boost::archive::binary_oarchive a(o); (**s).serialize(a, 0); }
            check();                                // saving changes nothing
            std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>);
            K::make(*t);
            if (used) { for (int i = 0; i < 4; ++i) K::push(**t, i % 2, 50 + i); for (int i = 0; i < K::U; ++i) if (!gone[i] || i == 0) K::drop(**t, i); }
            s = nullptr;
            std::istringstream in(o.str());
            if (text) { boost::archive::text_iarchive a(in); (**t).serialize(a, 0); }
            else { boost::archive::binary_iarchive a(in); (**t).serialize(a, 0); }
            s = std::move(t);
        } else { int const i = can[op - 5]; mc::note("drop %d", i); K::drop(**s, i); K::drop(*twin, i); gone[i] = 1; }
        check();
        mc::step();
    }
    push(); check();
    mc::step();
}
struct d_library : plain_feed, no_params {
    enum { U = 3 };
    typedef accumulator_set<double, features<droppable<tag::mean>, droppable<tag::variance(lazy)>, droppable<tag::sum>, tag::max> > set;
    static void drop(set &s, int i) { if (i == 0) s.drop<tag::mean>(); else if (i == 1) s.drop<tag::variance>(); else s.drop<tag::sum>(); }
    static void read(set const &s, vec &o) { put(o, mean(s)); put(o, variance(s)); put(o, sum(s)); put(o, count(s)); put(o, moment<2>(s)); put(o, (max)(s)); }
};
struct d_others : plain_feed {
    enum { U = 3 };
    typedef accumulator_set<double, features<droppable<tag::rolling_mean>, droppable<tag::tail<right> >, droppable<tag::p_square_quantile> > > set;
    template<class F> static void make(F &f) { f.make(tag::rolling_window::window_size = 2, tag::tail<right>::cache_size = 3, quantile_probability = 0.5); }
    static void drop(set &s, int i) { if (i == 0) s.drop<tag::rolling_mean>(); else if (i == 1) s.drop<tag::tail<right> >(); else s.drop<tag::p_square_quantile>(); }
    static void read(set const &s, vec &o) { put(o, rolling_mean(s)); put(o, tail(s)); put(o, p_square_quantile(s)); put(o, count(s)); }
};
struct d_cached : plain_feed, no_params {
    enum { U = 3 };
    typedef accumulator_set<double, features<droppable<keep_int>, droppable<keep_vec>, droppable<tag::count> > > set;
    static void drop(set &s, int i) { if (i == 0) s.drop<keep_int>(); else if (i == 1) s.drop<keep_vec>(); else s.drop<tag::count>(); }
    static void read(set const &s, vec &o) { put(o, extractor<keep_int>()(s)); put(o, extractor<keep_vec>()(s)); put(o, count(s)); }
};
}
MC_REGISTER
{
    mc::add_config("droppable statistics", run<d_library>, 4);
    mc::add_config("droppable rolling mean, tail, quantile", run<d_others>, 4);
    mc::add_config("droppable with cached result", run<d_cached>, 4);
}
