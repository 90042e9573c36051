#include "c12.hpp"
MC_REGISTER {
    mc::add_config("pairs<double>", pairs<double, void>, 4);
    mc::add_config("short<double>", short_runs<double, void>, 8);
    mc::add_config("long<double>", long_runs<double, void>, 2);
    mc::add_config("long<int>", long_runs<int, void>, 2);
}
