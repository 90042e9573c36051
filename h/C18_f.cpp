// boost/archive
#include "c18.hpp"
MC_REGISTER
{
    c18<k_density >("density", 4);
    c18<k_weighted_density >("weighted_density", 4);
    c18<k_weighted_cumul >("weighted_cumul", 4);
}
