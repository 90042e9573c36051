#include "c17.hpp"
MC_REGISTER
{
    c17<k_kahan>("kahan", 4);
    c17<k_weighted_kahan>("weighted_kahan", 4);
    c17<k_int>("int", 4);
    c17<k_int_rolling>("int_rolling", 4);
}
