#include "c09.hpp"
MC_REGISTER {
    mc::add_config("words<double,left>", words<double, left>, 4);
    mc::add_config("longer<double,left>", longer<double, left>, 2);
    mc::add_config("words<int,left>", words<int, left>, 4);
    mc::add_config("marathon<double,left>", marathon<double, left>, 2);
    mc::add_config("marathon<int,left>", marathon<int, left>, 2);
}
