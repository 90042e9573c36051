#include "c03.hpp"
MC_REGISTER {
    mc::add_config("words<double,double>", words<double, double, 6>, 8);
    mc::add_config("cyclic<double,double>", cyclic<double, double, 6>, 2);
    mc::add_config("marathon<double,double>", marathon<double, double, 6>, 3);
    mc::add_config("scales<double,double>", scales<double, double, 6>, 2);
}
