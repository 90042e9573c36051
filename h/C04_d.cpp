#include "c04.hpp"
MC_REGISTER {
    mc::add_config("weighted vector(2) x vector(3)", [] { run<vec, vec, true>(values<vec>(), values3(), 3, 4); }, 4);
    mc::add_config("weighted scalar x vector", [] { run<double, vec, true>(values<double>(), values<vec>(), 3, 4); }, 4);
    mc::add_config("weighted vector x scalar", [] { run<vec, double, true>(values<vec>(), values<double>(), 3, 4); }, 4);
}
