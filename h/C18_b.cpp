// boost/archive
#include "c18.hpp"
MC_REGISTER
{
    c18<k_weighted >("weighted", 4);
    c18<k_weighted_lazy >("weighted_lazy", 4);
    c18<k_variates >("variates", 4);
    c18<k_weighted_variates >("weighted_variates", 4);
}
