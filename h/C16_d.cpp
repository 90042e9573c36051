#include "c16.hpp"
MC_REGISTER
{
    c16<k_tail_means, false>("tail_means", 4);
    c16<k_weighted_tail, false>("weighted_tail", 4);
    c16<k_weighted_tail_means, false>("weighted_tail_means", 4);
}
