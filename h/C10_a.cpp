#include "psq.hpp"
static std::vector<double> const one{1.};
MC_REGISTER {
    mc::add_config("quantile<double>.words", [] { psq_words<quantile_subject<double, void>, double>({1., 0., 2.}, one, mc::depth(8, 10)); }, 8);
    mc::add_config("quantile<double>.after", [] { psq_after<quantile_subject<double, void>, double>(one, mc::depth(3, 4)); }, 4);
    mc::add_config("quantile<double>.long", [] { psq_long<quantile_subject<double, void>, double>(one, mc::depth(120, 600)); }, 2);
    mc::add_config("quantile<int>.words", [] { psq_words<quantile_subject<int, void>, int>({1, -4, 10}, one, mc::depth(7, 9)); }, 4);
    mc::add_config("quantile<double>.marathon", [] { psq_marathon<quantile_subject<double, void>, double>(one, mc::depth(2100, 70000)); }, 2);
    mc::add_config("quantile<double>.grid", [] { psq_grid<quantile_subject<double, void>, double>(fives, one, mc::depth(4, 5), {0, 1, 2}); }, 2);
}
