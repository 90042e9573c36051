#include "c07.hpp"
MC_REGISTER {
    mc::add_config("words<float>", words<float, 4>, 4);
    mc::add_config("cyclic<float>", cyclic<float, 4>, 2);
}
