#include "c17.hpp"
MC_REGISTER
{
    c17<k_weighted >("weighted", 4);
    c17<k_weighted_lazy >("weighted_lazy", 4);
    c17<k_variates >("variates", 4);
    c17<k_weighted_variates >("weighted_variates", 4);
}
