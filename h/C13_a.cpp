#include "c13.hpp"
typedef density_subject<double, void> sub;
MC_REGISTER {
    mc::add_config("words<double,void>", words<sub, double, void>, 4);
    mc::add_config("runs<double,void>", runs<sub, double, void>, 1);
    mc::add_config("marathon<double,void>", marathon<sub, double, void>, 3);
}
