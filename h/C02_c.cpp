#include "c02.hpp"
MC_REGISTER {
    mc::add_config("words<float>", words<float, 5>, 3);
    mc::add_config("cyclic<float>", cyclic<float, 5>, 2);
    mc::add_config("marathon<float>", marathon<float, 5>, 3);
}
