#include "c20.hpp"
using namespace pr;
static case_fn const cases[] = {
    c20_case<f3, f6, f1>,
    c20_case<f3, f6, f2>,
    c20_case<f3, f6, f7>,
    c20_case<f3, f7, f1>,
    c20_case<f3, f7, f2>,
    c20_case<f3, f7, f6>,
    c20_case<f6, f1, f2>,
    c20_case<f6, f1, f3>,
    c20_case<f6, f1, f7>,
    c20_case<f6, f2, f1>,
    c20_case<f6, f2, f3>,
    c20_case<f6, f2, f7>,
    c20_case<f6, f3, f1>,
    c20_case<f6, f3, f2>,
    c20_case<f6, f3, f7>,
    c20_case<f6, f7, f1>,
    c20_case<f6, f7, f2>,
    c20_case<f6, f7, f3>,
    c20_case<f7, f1, f2>,
    c20_case<f7, f1, f3>,
    c20_case<f7, f1, f6>,
    c20_case<f7, f2, f1>,
    c20_case<f7, f2, f3>,
    c20_case<f7, f2, f6>,
    c20_case<f7, f3, f1>,
    c20_case<f7, f3, f2>,
    c20_case<f7, f3, f6>,
    c20_case<f7, f6, f1>,
    c20_case<f7, f6, f2>,
    c20_case<f7, f6, f3>,
};
MC_REGISTER { mc::add_config("ordered triples (2)", [] { mc::pick(cases)(); }); }
