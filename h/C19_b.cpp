#include "c19.hpp"
using namespace pr;
typedef droppable<f0> d0; typedef droppable<f1> d1; typedef droppable<f2> d2; typedef droppable<f3> d3; typedef droppable<f4> d4; typedef droppable<f5> d5; typedef droppable<f6> d6; typedef droppable<f7> d7;
#define C(...) c19<__VA_ARGS__>(#__VA_ARGS__)
MC_REGISTER
{
    C(d6, d0); C(d6, d5); C(d6, d0, d5); C(d6, f0); C(d6, d3); C(d6, f3); C(f6, d3, d0); C(d7, d0); C(d7, d3); C(d7, f3);
    C(d7, d1); C(d7, d6); C(f7, d6); C(d7, d3, d0); C(d6, d4, d5); C(d7, d4); C(d1, d7, d5); C(d2, d6, d3);
}
