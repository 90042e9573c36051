// boost/archive
#include "c18.hpp"
MC_REGISTER
{
    c18<k_weighted_pot >("weighted_pot", 4);
    c18<k_weighted_pot_prob >("weighted_pot_prob", 4);
}
