#include "c07.hpp"
MC_REGISTER {
    mc::add_config("words<double>", words<double, 4>, 4);
    mc::add_config("cyclic<double>", cyclic<double, 4>, 2);
    mc::add_config("marathon<double>", marathon<double, 4>, 4);
    mc::add_config("scales<double>", scales<double, 4>, 2);
    mc::add_config("settling<double>", settling<double, 4>, 2);
}
