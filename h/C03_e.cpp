#include "c03.hpp"
MC_REGISTER {
    mc::add_config("words<int,double>", words<int, double, 4>, 8);
    mc::add_config("cyclic<int,double>", cyclic<int, double, 4>, 2);
    mc::add_config("marathon<int,double>", marathon<int, double, 4>, 3);
}
