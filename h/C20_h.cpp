#include "c20f.hpp"
namespace {
template<class... F> void lists(std::string const &n) { mc::add_config("levels, weights: " + n, run_list<double, stats<F...>, F...>, 2); }
#define L(...) lists<__VA_ARGS__>(#__VA_ARGS__)
}
MC_REGISTER
{
    L(l2); L(l4); L(v2); L(r1); L(r2); L(l4, r1); L(v2, l1); L(tag::mean, l3); L(l4, tag::mean, tag::count);
}
