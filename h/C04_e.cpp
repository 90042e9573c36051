#include "c04.hpp"
MC_REGISTER {
    mc::add_config("marathon<double,double,double>", marathon<double, double, double>, 3);
    mc::add_config("scales<double,double,double>", scales<double, double, double>, 4);
}
