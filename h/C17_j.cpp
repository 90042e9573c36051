#include "c17.hpp"
MC_REGISTER
{
    c17<k_vector_variates>("vector_variates", 4);
    c17<k_weighted_tail_left>("weighted_tail_left", 4);
}
