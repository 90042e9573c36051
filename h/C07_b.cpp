#include "c07.hpp"
MC_REGISTER {
    mc::add_config("words<int>", words<int, 4>, 4);
    mc::add_config("cyclic<int>", cyclic<int, 4>, 2);
    mc::add_config("marathon<int>", marathon<int, 4>, 4);
}
