// boost/archive
#include "c18.hpp"
MC_REGISTER
{
    c18<k_tail_means >("tail_means", 4);
    c18<k_weighted_tail >("weighted_tail", 4);
    c18<k_weighted_tail_means >("weighted_tail_means", 4);
}
