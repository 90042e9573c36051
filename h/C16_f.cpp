#include "c16.hpp"
MC_REGISTER
{
    c16<k_density >("density", 4);
    c16<k_weighted_density >("weighted_density", 4);
    c16<k_weighted_cumul >("weighted_cumul", 4);
}
