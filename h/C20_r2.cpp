#include "c20r.hpp"
MC_REGISTER
{
    static std::vector<case_fn> v;
    row<window3, void, r_lvar, ROLLING>(v);
    row<window3, void, r_m2, ROLLING>(v);
    row<window3, void, s_mean, ROLLING>(v);
    row<window3, void, s_var, ROLLING>(v);
    mc::add_config("rolling, ordered pairs (2)", [] { mc::pick(v)(); }, 2);
}
