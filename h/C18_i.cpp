// boost/archive
#include "c18.hpp"
MC_REGISTER
{
    c18<k_kahan>("kahan", 4);
    c18<k_weighted_kahan>("weighted_kahan", 4);
    c18<k_int>("int", 4);
    c18<k_int_rolling>("int_rolling", 4);
}
