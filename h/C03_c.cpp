#include "c03.hpp"
MC_REGISTER {
    mc::add_config("words<float,float>", words<float, float, 4>, 8);
    mc::add_config("cyclic<float,float>", cyclic<float, float, 4>, 2);
    mc::add_config("marathon<float,float>", marathon<float, float, 4>, 3);
}
