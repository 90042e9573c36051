#include "c12.hpp"
MC_REGISTER {
    mc::add_config("pairs<double,double>", pairs<double, double>, 4);
    mc::add_config("short<double,double>", short_runs<double, double>, 8);
    mc::add_config("long<double,double>", long_runs<double, double>, 2);
}
