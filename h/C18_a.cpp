// boost/archive
#include "c18.hpp"
MC_REGISTER
{
    c18<k_basic >("basic", 4);
    c18<k_error >("error", 4);
    c18<k_lazy >("lazy", 4);
    c18<k_vector >("vector", 4);
}
