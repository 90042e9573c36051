#include "c16.hpp"
MC_REGISTER
{
    c16<k_psquare >("psquare", 4);
    c16<k_psquare_quad >("psquare_quad", 4);
    c16<k_weighted_psquare >("weighted_psquare", 4);
}
