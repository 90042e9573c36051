#include "c02.hpp"
MC_REGISTER {
    mc::add_config("small<signed char>", small<signed char>);
    mc::add_config("small<unsigned char>", small<unsigned char>);
    mc::add_config("small<char>", small<char>);
}
