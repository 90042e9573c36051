#include "c20r.hpp"
MC_REGISTER
{
    static std::vector<case_fn> v;
    row<no_params, double, s_skew, WMOMENTS>(v);
    row<no_params, double, s_kurt, WMOMENTS>(v);
    row<no_params, double, s_sum, WMOMENTS>(v);
    row<no_params, double, s_count, WMOMENTS>(v);
    mc::add_config("weighted moments, ordered pairs (2)", [] { mc::pick(v)(); }, 2);
}
