#include "psq.hpp"
static std::vector<double> const one{1.};
MC_REGISTER {
    mc::add_config("cumulative<double>.words", [] { psq_words<cumul_subject<double, void>, double>({1., 0., 2.}, one, mc::depth(8, 10)); }, 4);
    mc::add_config("cumulative<double>.after", [] { psq_after<cumul_subject<double, void>, double>(one, mc::depth(3, 5)); }, 4);
    mc::add_config("cumulative<double>.long", [] { psq_long<cumul_subject<double, void>, double>(one, mc::depth(120, 600)); }, 2);
    mc::add_config("cumulative<int>.words", [] { psq_words<cumul_subject<int, void>, int>({1, -4, 10}, one, mc::depth(7, 9)); }, 4);
    mc::add_config("quantile<float>.long", [] { psq_long<quantile_subject<float, void>, float>(one, mc::depth(40, 100)); }, 2);
    mc::add_config("cumulative<double>.marathon", [] { psq_marathon<cumul_subject<double, void>, double>(one, mc::depth(2100, 70000)); }, 2);
    mc::add_config("cumulative<double>.grid", [] { psq_grid<cumul_subject<double, void>, double>(fives, one, mc::depth(4, 5), {0, 2}); }, 2);
}
