#include "c20r.hpp"
MC_REGISTER
{
    static std::vector<case_fn> v;
    row<many, void, q_left, QUANT>(v);
    row<many, void, s_var, QUANT>(v);
    row<many, void, s_min, QUANT>(v);
    mc::add_config("quantiles, ordered pairs (2)", [] { mc::pick(v)(); }, 2);
}
