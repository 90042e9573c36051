#include "c03.hpp"
MC_REGISTER {
    mc::add_config("words<double,int>", words<double, int, 5>, 8);
    mc::add_config("cyclic<double,int>", cyclic<double, int, 5>, 2);
    mc::add_config("marathon<double,int>", marathon<double, int, 5>, 3);
}
