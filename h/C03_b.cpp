#include "c03.hpp"
MC_REGISTER {
    mc::add_config("words<int,int>", words<int, int, 4>, 8);
    mc::add_config("cyclic<int,int>", cyclic<int, int, 4>, 2);
    mc::add_config("marathon<int,int>", marathon<int, int, 4>, 3);
}
