#include "c24s.hpp"
MC_REGISTER { left_of<std::size_t>("std::size_t"); }
