#include "c16.hpp"
MC_REGISTER
{
    c16<k_rolling >("rolling", 4);
    c16<k_rolling_lazy >("rolling_lazy", 4);
    c16<k_tail<left>, false>("tail<left>", 4);
    c16<k_tail<right>, false>("tail<right>", 4);
}
