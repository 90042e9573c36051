#include "c07.hpp"
MC_REGISTER {
    mc::add_config("small<short>", small<short>);
    mc::add_config("small<signed char>", small<signed char>);
    mc::add_config("small<unsigned char>", small<unsigned char>);
    mc::add_config("small<long double>", small<long double>);
    mc::add_config("small<unsigned long long>", small<unsigned long long>);
}
