#include "c04.hpp"
MC_REGISTER {
    mc::add_config("vector x scalar", [] { run<vec, double, false>(values<vec>(), values<double>(), 3, 4); });
    mc::add_config("vector(2) x vector(3)", [] { run<vec, vec, false>(values<vec>(), values3(), 3, 4); });
    mc::add_config("vector(3) x vector(2)", [] { run<vec, vec, false>(values3(), values<vec>(), 3, 4); });
    mc::add_config("vector(2) x vector(2)", [] { run<vec, vec, false>(values<vec>(), values<vec>(), 3, 4); });
}
