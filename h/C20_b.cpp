#include "c20.hpp"
using namespace pr;
static case_fn const cases[] = {
    c20_case<f4, f0>,
    c20_case<f4, f1>,
    c20_case<f4, f2>,
    c20_case<f4, f3>,
    c20_case<f4, f5>,
    c20_case<f4, f6>,
    c20_case<f4, f7>,
    c20_case<f5, f0>,
    c20_case<f5, f1>,
    c20_case<f5, f2>,
    c20_case<f5, f3>,
    c20_case<f5, f4>,
    c20_case<f5, f6>,
    c20_case<f5, f7>,
    c20_case<f6, f0>,
    c20_case<f6, f1>,
    c20_case<f6, f2>,
    c20_case<f6, f3>,
    c20_case<f6, f4>,
    c20_case<f6, f5>,
    c20_case<f6, f7>,
    c20_case<f7, f0>,
    c20_case<f7, f1>,
    c20_case<f7, f2>,
    c20_case<f7, f3>,
    c20_case<f7, f4>,
    c20_case<f7, f5>,
    c20_case<f7, f6>,
};
MC_REGISTER { mc::add_config("ordered pairs (2)", [] { mc::pick(cases)(); }); }
