#include "c20.hpp"
using namespace pr;
static case_fn const cases[] = {
    c20_case<f0>,
    c20_case<f1>,
    c20_case<f2>,
    c20_case<f3>,
    c20_case<f4>,
    c20_case<f5>,
    c20_case<f6>,
    c20_case<f7>,
    c20_case<f0, f1>,
    c20_case<f0, f2>,
    c20_case<f0, f3>,
    c20_case<f0, f4>,
    c20_case<f0, f5>,
    c20_case<f0, f6>,
    c20_case<f0, f7>,
    c20_case<f1, f0>,
    c20_case<f1, f2>,
    c20_case<f1, f3>,
    c20_case<f1, f4>,
    c20_case<f1, f5>,
    c20_case<f1, f6>,
    c20_case<f1, f7>,
    c20_case<f2, f0>,
    c20_case<f2, f1>,
    c20_case<f2, f3>,
    c20_case<f2, f4>,
    c20_case<f2, f5>,
    c20_case<f2, f6>,
    c20_case<f2, f7>,
    c20_case<f3, f0>,
    c20_case<f3, f1>,
    c20_case<f3, f2>,
    c20_case<f3, f4>,
    c20_case<f3, f5>,
    c20_case<f3, f6>,
    c20_case<f3, f7>,
};
MC_REGISTER { mc::add_config("every feature alone, ordered pairs (1)", [] { mc::pick(cases)(); }); }
