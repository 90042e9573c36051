#include "c13.hpp"
typedef density_subject<int, void> sub;
MC_REGISTER {
    mc::add_config("words<int,void>", words<sub, int, void>, 4);
    mc::add_config("runs<int,void>", runs<sub, int, void>, 1);
    mc::add_config("marathon<int,void>", marathon<sub, int, void>, 3);
}
