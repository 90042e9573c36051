// boost/archive
#include "c18.hpp"
MC_REGISTER
{
    c18<k_pot<left> >("pot<left>", 4);
    c18<k_pot<right> >("pot<right>", 4);
    c18<k_pot_prob<left> >("pot_prob<left>", 4);
    c18<k_pot_prob<right> >("pot_prob<right>", 4);
}
