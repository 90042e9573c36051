#include "c24s.hpp"
MC_REGISTER { left_of<float>("float"); }
