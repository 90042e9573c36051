#include "c20r.hpp"
MC_REGISTER
{
    static std::vector<case_fn> v;
    row<many, void, q_med, QUANT>(v);
    row<many, void, q_psq, QUANT>(v);
    row<many, void, q_den, QUANT>(v);
    row<many, void, q_cum, QUANT>(v);
    mc::add_config("quantiles, ordered pairs (1)", [] { mc::pick(v)(); }, 2);
}
