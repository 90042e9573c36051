#include "c13.hpp"
MC_REGISTER
{
    mc::add_config("edges<double>", edges<double, void>);
    mc::add_config("edges<double,double>", edges<double, double>);
    mc::add_config("edges<float>", edges<float, void>);
}
