#include "c17.hpp"
MC_REGISTER
{
    c17<k_rolling >("rolling", 4);
    c17<k_rolling_lazy >("rolling_lazy", 4);
    c17<k_tail<left> >("tail<left>", 4);
    c17<k_tail<right> >("tail<right>", 4);
}
