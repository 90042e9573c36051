#include "c03.hpp"
MC_REGISTER {
    mc::add_config("small<short,int>", small<short, int>);
    mc::add_config("small<signed char,double>", small<signed char, double>);
    mc::add_config("small<long double,unsigned char>", small<long double, unsigned char>);
    mc::add_config("small<long long,float>", small<long long, float>);
}
