#include "c02.hpp"
MC_REGISTER {
    mc::add_config("words<unsigned>", words<unsigned, 4>, 3);
    mc::add_config("cyclic<unsigned>", cyclic<unsigned, 4>, 2);
    mc::add_config("marathon<unsigned>", marathon<unsigned, 4>, 3);
}
