#include "psq.hpp"
static std::vector<double> const two{1., 2.}, some{1., 0.5, 3.};
MC_REGISTER {
    mc::add_config("quantile<int,double>.long", [] { psq_long<quantile_subject<int, double>, int>(some, mc::depth(60, 300)); }, 2);
    mc::add_config("extended<int,double>.long", [] { psq_long<extended_subject<int, double>, int>(some, mc::depth(60, 300)); }, 2);
    mc::add_config("cumulative<int,double>.long", [] { psq_long<cumul_subject<int, double>, int>(some, mc::depth(60, 300)); }, 2);
    mc::add_config("quantile<float,double>.long", [] { psq_long<quantile_subject<float, double>, float>(some, mc::depth(60, 300)); }, 2);
    mc::add_config("extended<double,int>.long", [] { psq_long<extended_subject<double, int>, double>(two, mc::depth(60, 300)); }, 2);
    mc::add_config("cumulative<double,int>.long", [] { psq_long<cumul_subject<double, int>, double>(two, mc::depth(60, 300)); }, 2);
}
