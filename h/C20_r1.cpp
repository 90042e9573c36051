#include "c20r.hpp"
MC_REGISTER
{
    static std::vector<case_fn> v;
    row<window3, void, r_count, ROLLING>(v);
    row<window3, void, r_sum, ROLLING>(v);
    row<window3, void, r_mean, ROLLING>(v);
    row<window3, void, r_lmean, ROLLING>(v);
    row<window3, void, r_var, ROLLING>(v);
    mc::add_config("rolling, ordered pairs (1)", [] { mc::pick(v)(); }, 2);
}
