#include "c16.hpp"
MC_REGISTER
{
    c16<k_basic >("basic", 4);
    c16<k_error >("error", 4);
    c16<k_lazy >("lazy", 4);
    c16<k_vector >("vector", 4);
}
