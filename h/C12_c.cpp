#include "c12.hpp"
MC_REGISTER {
    mc::add_config("long<int,double>", long_runs<int, double>, 2);
}
