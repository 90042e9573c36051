#include "c02.hpp"
MC_REGISTER {
    mc::add_config("small<short>", small<short>);
    mc::add_config("small<unsigned short>", small<unsigned short>);
    mc::add_config("small<unsigned long long>", small<unsigned long long>);
    mc::add_config("small<long long>", small<long long>);
}
