#include "c24s.hpp"
MC_REGISTER { left_of<long double>("long double"); }
