#include "c20r.hpp"
MC_REGISTER
{
    static std::vector<case_fn> v;
    row<no_params, void, s_mean, MOMENTS>(v);
    row<no_params, void, s_imean, MOMENTS>(v);
    row<no_params, void, s_var, MOMENTS>(v);
    row<no_params, void, s_lvar, MOMENTS>(v);
    row<no_params, void, s_m2, MOMENTS>(v);
    mc::add_config("moments, ordered pairs (1)", [] { mc::pick(v)(); }, 2);
}
