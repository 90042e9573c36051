// boost/archive
#include "c18.hpp"
MC_REGISTER
{
    c18<k_psquare >("psquare", 4);
    c18<k_psquare_quad >("psquare_quad", 4);
    c18<k_weighted_psquare >("weighted_psquare", 4);
}
