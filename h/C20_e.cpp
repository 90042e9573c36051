#include "probe.hpp"
// The documentation says that an accumulator may read the ones it depends on while it is constructed.
namespace {
struct base_impl : accumulator_base {
    typedef int result_type;
    int n;
    base_impl(dont_care) : n(42) {}
    void operator()(dont_care) { ++n; }
    result_type result(dont_care) const { return n; }
};
struct base : depends_on<> { typedef boost::mpl::always<base_impl> impl; };
struct reader_impl : accumulator_base {
    typedef int result_type;
    int start, last;
    template<class A> reader_impl(A const &args) : start(extractor<base>()(args[accumulator])), last(0) {}
    template<class A> void operator()(A const &args) { last = extractor<base>()(args); }
    result_type result(dont_care) const { return last; }
};
struct reader : depends_on<base> { typedef boost::mpl::always<reader_impl> impl; };
void body()
{
    typedef accumulator_set<double, features<reader> > set;
    mc::fresh<set> s; s.make();
    if (find_accumulator<reader>(*s).start != 42) mc::known("dependency-during-construction");
    int const n = 1 + mc::choose(3);
    for (int i = 1; i <= n; ++i) { (*s)(1.); mc::check_eq("what an accumulator sees of its dependency", extractor<reader>()(*s), 42 + i); mc::step(); }
}
}
MC_REGISTER { mc::add_config("reading a dependency", body); }
