#include "c09.hpp"
MC_REGISTER {
    mc::add_config("words<double,right>", words<double, right>, 4);
    mc::add_config("longer<double,right>", longer<double, right>, 2);
    mc::add_config("words<int,right>", words<int, right>, 4);
    mc::add_config("marathon<double,right>", marathon<double, right>, 2);
    mc::add_config("marathon<int,right>", marathon<int, right>, 2);
}
