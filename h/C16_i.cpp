#include "c16.hpp"
MC_REGISTER
{
    c16<k_kahan, false>("kahan", 4);
    c16<k_weighted_kahan, false>("weighted_kahan", 4);
    c16<k_int>("int", 4);
    c16<k_int_rolling>("int_rolling", 4);
}
