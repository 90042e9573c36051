#include "c16.hpp"
MC_REGISTER
{
    c16<k_pot<left> >("pot<left>", 4);
    c16<k_pot<right> >("pot<right>", 4);
    c16<k_pot_prob<left> >("pot_prob<left>", 4);
    c16<k_pot_prob<right> >("pot_prob<right>", 4);
}
