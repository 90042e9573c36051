#include "c13.hpp"
MC_REGISTER {
    mc::add_config("words<int,double>", words<median_subject<int, double>, int, double>, 4);
    mc::add_config("runs<int,double>", runs<median_subject<int, double>, int, double>, 1);
}
