#include "c13.hpp"
MC_REGISTER {
    mc::add_config("words<double,int>", words<median_subject<double, int>, double, int>, 4);
    mc::add_config("words<float,void>", words<median_subject<float, void>, float, void>, 4);
    mc::add_config("runs<float,void>", runs<median_subject<float, void>, float, void>, 1);
}
