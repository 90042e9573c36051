#include "psq.hpp"
static std::vector<double> const one{1.};
MC_REGISTER {
    mc::add_config("extended<double>.words", [] { psq_words<extended_subject<double, void>, double>({1., 0., 2.}, one, mc::depth(8, 10)); }, 4);
    mc::add_config("extended<double>.after", [] { psq_after<extended_subject<double, void>, double>(one, mc::depth(3, 4)); }, 4);
    mc::add_config("extended<double>.long", [] { psq_long<extended_subject<double, void>, double>(one, mc::depth(120, 600)); }, 2);
    mc::add_config("extended<int>.long", [] { psq_long<extended_subject<int, void>, int>(one, mc::depth(120, 600)); }, 2);
    mc::add_config("extended<double>.marathon", [] { psq_marathon<extended_subject<double, void>, double>(one, mc::depth(2100, 70000)); }, 2);
    mc::add_config("extended<double>.grid", [] { psq_grid<extended_subject<double, void>, double>(fives, one, mc::depth(4, 5), {0, 7, 8}); }, 2);
}
