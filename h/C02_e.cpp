#include "c02.hpp"
MC_REGISTER {
    mc::add_config("words<long double>", words<long double, 6>, 3);
    mc::add_config("cyclic<long>", cyclic<long, 4>, 2);
}
