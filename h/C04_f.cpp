#include "c04.hpp"
MC_REGISTER {
    mc::add_config("marathon<int,double,int>", marathon<int, double, int>, 3);
    mc::add_config("scales<int,int,int>", scales<int, int, int>, 1);
    mc::add_config("scales<double,int,double>", scales<double, int, double>, 1);
    mc::add_config("scales<int,double,double>", scales<int, double, double>, 1);
}
