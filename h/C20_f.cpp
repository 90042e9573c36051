#include "c20f.hpp"
namespace {
template<class... F> void lists(std::string const &n) { mc::add_config("levels: " + n, run_list<void, stats<F...>, F...>, 2); }
#define L(...) lists<__VA_ARGS__>(#__VA_ARGS__)
}
MC_REGISTER
{
    L(l1); L(l4); L(v2); L(r2); L(l2, r2); L(r2, l2); L(l4, tag::mean, tag::count); L(tag::mean, l3);
    mc::add_config("an mpl::vector of features", run_list<void, boost::mpl::vector<l2, r2, tag::count>, l2, r2, tag::count>);
    mc::add_config("an mpl::list of features", run_list<void, boost::mpl::list<r2, l4, tag::count>, r2, l4, tag::count>);
}
