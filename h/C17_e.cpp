#include "c17.hpp"
MC_REGISTER
{
    c17<k_psquare >("psquare", 4);
    c17<k_psquare_quad >("psquare_quad", 4);
    c17<k_weighted_psquare >("weighted_psquare", 4);
}
