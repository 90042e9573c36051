// boost/archive
#include "c18.hpp"
MC_REGISTER
{
    c18<k_vector_variates>("vector_variates", 4);
    c18<k_weighted_tail_left>("weighted_tail_left", 4);
}
