#include "c03.hpp"
MC_REGISTER {
    mc::add_config("small<unsigned,unsigned>", small<unsigned, unsigned>);
    mc::add_config("small<float,double>", small<float, double>);
    mc::add_config("small<double,float>", small<double, float>);
}
