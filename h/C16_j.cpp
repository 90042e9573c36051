#include "c16.hpp"
MC_REGISTER
{
    c16<k_vector_variates>("vector_variates", 4);
    c16<k_weighted_tail_left, false>("weighted_tail_left", 4);
}
