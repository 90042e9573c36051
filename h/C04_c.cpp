#include "c04.hpp"
MC_REGISTER {
    mc::add_config("weighted scalar x scalar", [] { run<double, double, true>(values<double>(), values<double>(), 3, 4); }, 4);
    mc::add_config("scalar x vector", [] { run<double, vec, false>(values<double>(), values<vec>(), 3, 4); });
}
