#include "c20r.hpp"
MC_REGISTER
{
    static std::vector<case_fn> v;
    row<no_params, double, s_mean, WMOMENTS>(v);
    row<no_params, double, s_imean, WMOMENTS>(v);
    row<no_params, double, s_var, WMOMENTS>(v);
    row<no_params, double, s_lvar, WMOMENTS>(v);
    row<no_params, double, s_m2, WMOMENTS>(v);
    mc::add_config("weighted moments, ordered pairs (1)", [] { mc::pick(v)(); }, 2);
}
