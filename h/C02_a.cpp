#include "c02.hpp"
MC_REGISTER {
    mc::add_config("words<double>", words<double, 6>, 3);
    mc::add_config("cyclic<double>", cyclic<double, 6>, 2);
    mc::add_config("marathon<double>", marathon<double, 6>, 3);
    mc::add_config("scales<double>", scales<double, 6>, 2);
}
