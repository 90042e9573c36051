#include "psq.hpp"
static std::vector<double> const one{1.}, two{1., 2.}, some{1., 0.5, 3.}, odd{0.7, 1.3, 2.1};
MC_REGISTER {
    mc::add_config("quantile.unit", [] { psq_words<quantile_subject<double, double>, double>({1., 0., 2.}, one, mc::depth(7, 9)); }, 4);
    mc::add_config("quantile.words", [] { psq_words<quantile_subject<double, double>, double>({1., 0.}, two, mc::depth(6, 7)); }, 8);
    mc::add_config("quantile.after", [] { psq_after<quantile_subject<double, double>, double>(some, mc::depth(2, 3)); }, 4);
    mc::add_config("quantile.long", [] { psq_long<quantile_subject<double, double>, double>(some, mc::depth(120, 600)); }, 2);
    mc::add_config("quantile.long.odd", [] { psq_long<quantile_subject<double, double>, double>(odd, mc::depth(60, 600)); }, 2);
    mc::add_config("quantile.marathon", [] { psq_marathon<quantile_subject<double, double>, double>(some, mc::depth(2100, 70000)); }, 2);
    mc::add_config("quantile.grid", [] { psq_grid<quantile_subject<double, double>, double>(fives, {1., 2., 4.}, 1, {0, 1, 2}); }, 4);
    mc::add_config("quantile.grid2", [] { psq_grid<quantile_subject<double, double>, double>(fives, {1., 2.}, mc::depth(2, 3), {0, 1, 2}); }, 4);
}
