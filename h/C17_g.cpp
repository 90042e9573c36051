#include "c17.hpp"
MC_REGISTER
{
    c17<k_pot<left> >("pot<left>", 4);
    c17<k_pot<right> >("pot<right>", 4);
    c17<k_pot_prob<left> >("pot_prob<left>", 4);
    c17<k_pot_prob<right> >("pot_prob<right>", 4);
}
