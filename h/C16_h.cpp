#include "c16.hpp"
MC_REGISTER
{
    c16<k_weighted_pot >("weighted_pot", 4);
    c16<k_weighted_pot_prob, false>("weighted_pot_prob", 4);
}
