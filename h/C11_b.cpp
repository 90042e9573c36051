#include "psq.hpp"
static std::vector<double> const one{1.}, two{1., 2.}, some{1., 0.5, 3.}, odd{0.7, 1.3, 2.1};
MC_REGISTER {
    mc::add_config("extended.unit", [] { psq_words<extended_subject<double, double>, double>({1., 0., 2.}, one, mc::depth(7, 9)); }, 4);
    mc::add_config("extended.words", [] { psq_words<extended_subject<double, double>, double>({1., 0.}, two, mc::depth(6, 7)); }, 4);
    mc::add_config("extended.after", [] { psq_after<extended_subject<double, double>, double>(some, mc::depth(2, 3)); }, 4);
    mc::add_config("extended.long", [] { psq_long<extended_subject<double, double>, double>(some, mc::depth(120, 600)); }, 2);
    mc::add_config("extended.long.odd", [] { psq_long<extended_subject<double, double>, double>(odd, mc::depth(60, 600)); }, 2);
    mc::add_config("extended.marathon", [] { psq_marathon<extended_subject<double, double>, double>(some, mc::depth(2100, 70000)); }, 2);
    mc::add_config("extended.grid", [] { psq_grid<extended_subject<double, double>, double>(fives, {1., 2., 4.}, 1, {0, 7, 8}); }, 2);
    mc::add_config("extended.grid2", [] { psq_grid<extended_subject<double, double>, double>(fives, {1., 2.}, mc::depth(2, 3), {0, 7, 8}); }, 2);
}
