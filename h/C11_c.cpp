#include "psq.hpp"
static std::vector<double> const one{1.}, two{1., 2.}, some{1., 0.5, 3.}, odd{0.7, 1.3, 2.1};
MC_REGISTER {
    mc::add_config("cumulative.unit", [] { psq_words<cumul_subject<double, double>, double>({1., 0., 2.}, one, mc::depth(7, 9)); }, 4);
    mc::add_config("cumulative.words", [] { psq_words<cumul_subject<double, double>, double>({1., 0.}, two, mc::depth(6, 7)); }, 4);
    mc::add_config("cumulative.after", [] { psq_after<cumul_subject<double, double>, double>(some, mc::depth(2, 3)); }, 4);
    mc::add_config("cumulative.long", [] { psq_long<cumul_subject<double, double>, double>(some, mc::depth(120, 600)); }, 2);
    mc::add_config("cumulative.long.odd", [] { psq_long<cumul_subject<double, double>, double>(odd, mc::depth(60, 600)); }, 2);
    mc::add_config("quantile<int weights>.long", [] { psq_long<quantile_subject<double, int>, double>(two, mc::depth(60, 300)); }, 2);
    mc::add_config("cumulative.marathon", [] { psq_marathon<cumul_subject<double, double>, double>(some, mc::depth(2100, 70000)); }, 2);
    mc::add_config("cumulative.grid", [] { psq_grid<cumul_subject<double, double>, double>(fives, {1., 2., 4.}, 1, {0, 2}); }, 2);
    mc::add_config("cumulative.grid2", [] { psq_grid<cumul_subject<double, double>, double>(fives, {1., 2.}, mc::depth(2, 3), {0, 2}); }, 2);
}
