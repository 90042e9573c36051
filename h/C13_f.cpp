#include "c13.hpp"
MC_REGISTER {
    mc::add_config("words<int,double>", words<density_subject<int, double>, int, double>, 4);
    mc::add_config("runs<int,double>", runs<density_subject<int, double>, int, double>, 1);
    mc::add_config("words<double,int>", words<density_subject<double, int>, double, int>, 4);
    mc::add_config("runs<unsigned,void>", runs<density_subject<unsigned, void>, unsigned, void>, 1);
}
