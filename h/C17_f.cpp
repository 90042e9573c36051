#include "c17.hpp"
MC_REGISTER
{
    c17<k_density >("density", 4);
    c17<k_weighted_density >("weighted_density", 4);
    c17<k_weighted_cumul >("weighted_cumul", 4);
}
