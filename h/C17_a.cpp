#include "c17.hpp"
MC_REGISTER
{
    c17<k_basic >("basic", 4);
    c17<k_error >("error", 4);
    c17<k_lazy >("lazy", 4);
    c17<k_vector >("vector", 4);
}
