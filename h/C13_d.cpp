#include "c13.hpp"
typedef density_subject<float, void> sub;
MC_REGISTER {
    mc::add_config("words<float,void>", words<sub, float, void>, 4);
    mc::add_config("runs<float,void>", runs<sub, float, void>, 1);
}
