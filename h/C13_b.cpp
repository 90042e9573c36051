#include "c13.hpp"
typedef density_subject<double, double> sub;
MC_REGISTER {
    mc::add_config("words<double,double>", words<sub, double, double>, 4);
    mc::add_config("runs<double,double>", runs<sub, double, double>, 1);
    mc::add_config("marathon<double,double>", marathon<sub, double, double>, 3);
}
