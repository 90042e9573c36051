#include "c17.hpp"
MC_REGISTER
{
    c17<k_tail_means >("tail_means", 4);
    c17<k_weighted_tail >("weighted_tail", 4);
    c17<k_weighted_tail_means >("weighted_tail_means", 4);
}
