#include "c16.hpp"
MC_REGISTER
{
    c16<k_weighted >("weighted", 4);
    c16<k_weighted_lazy >("weighted_lazy", 4);
    c16<k_variates >("variates", 4);
    c16<k_weighted_variates >("weighted_variates", 4);
}
