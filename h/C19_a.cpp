#include "c19.hpp"
using namespace pr;
typedef droppable<f0> d0; typedef droppable<f1> d1; typedef droppable<f2> d2; typedef droppable<f3> d3; typedef droppable<f4> d4; typedef droppable<f5> d5; typedef droppable<f6> d6; typedef droppable<f7> d7;
#define C(...) c19<__VA_ARGS__>(#__VA_ARGS__)
MC_REGISTER
{
    C(d0); C(d1); C(d3); C(d4); C(d6); C(d7);
    C(f0, d1); C(d0, d1); C(d0, f1); C(d1, d0); C(d1, d2); C(d2, d1, d0); C(d1, f2);
    C(d3, d0); C(d3, f0); C(d3, d1); C(f3, d1); C(d3, f1); C(d1, d2, d3); C(d3, d2, d0);
    C(d4, d3); C(d4, f3); C(d3, d4, d0); C(d4, d1); C(f4, d0); C(d4, f1, d2);
}
