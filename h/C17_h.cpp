#include "c17.hpp"
MC_REGISTER
{
    c17<k_weighted_pot >("weighted_pot", 4);
    c17<k_weighted_pot_prob >("weighted_pot_prob", 4);
}
