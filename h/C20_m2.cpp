#include "c20r.hpp"
MC_REGISTER
{
    static std::vector<case_fn> v;
    row<no_params, void, s_skew, MOMENTS>(v);
    row<no_params, void, s_kurt, MOMENTS>(v);
    row<no_params, void, s_err, MOMENTS>(v);
    row<no_params, void, s_ierr, MOMENTS>(v);
    row<no_params, void, s_sum, MOMENTS>(v);
    mc::add_config("moments, ordered pairs (2)", [] { mc::pick(v)(); }, 2);
}
