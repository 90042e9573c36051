#pragma once
#include "kits.hpp"
// C17: sets are values.  Two sets a and b, each with the history of the samples it has seen; copying, assigning,
// moving and destroying in every order; at the end (and whenever looked at) each of them must answer as a set
// fed its history.
template<class K> void c17_body()
{
    typedef typename K::set set;
    static int const start[] = {0, 5, 11};
    std::unique_ptr<mc::fresh<set> > s[2];
    history h[2];
    int kind[2] = {0, 0};                           // which choice of parameters it was made with
    int clock = 0;
    static int const kinds[][2] = {{0, 0}, {0, 1}, {2, 0}, {2, 2}};
    if (!std::is_base_of<no_params, K>::value) { int const k = mc::choose(4); kind[0] = kinds[k][0]; kind[1] = kinds[k][1]; }
    bool const big = kind[0] == 2;
    for (int k = 0; k < 2; ++k) { s[k].reset(new mc::fresh<set>); alt() = kind[k]; K::make(*s[k]); }
    mc::note("a is made with parameters %d, b with %d", kind[0], kind[1]);
    auto same = [&](char const *who, int k, std::size_t from = 0) { alt() = kind[k]; same_as_fresh<K>(who, **s[k], h[k], from); };
    auto push = [&](int k, int sym) { K::push(**s[k], sym, clock); h[k].push_back({sym, clock}); ++clock; };
    int const pre = big ? 70 : start[mc::choose(3)];
    for (int i = 0; i < pre; ++i) push(0, (i * 5 + i / 3) % 3);
    int const preb = mc::choose(2) * 6;
    for (int i = 0; i < preb; ++i) push(1, (i * 7 + 1) % 3);
    int const D = big ? mc::depth(2, 3) : mc::depth(kind[1] ? 3 : 4, 5);
    for (int d = 0; d < D; ++d) {
        int const op = mc::choose(9);
        switch (op) {
        case 0: case 1: { int const k = op; mc::note("push %c", "ab"[k]); push(k, d % 3); break; }
        case 2: {   // b = copy of a, the old b destroyed
            mc::note("b := copy of a");
            std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>); t->make(**s[0]); s[1] = std::move(t); h[1] = h[0]; kind[1] = kind[0]; break; }
        case 3: {   // a replaced by a copy of itself, the original destroyed
            mc::note("a := copy of a, original destroyed");
            std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>); t->make(**s[0]); s[0] = std::move(t); break; }
        case 4: mc::note("b = a"); **s[1] = **s[0]; h[1] = h[0]; kind[1] = kind[0]; break;
        case 5: mc::note("a = b"); **s[0] = **s[1]; h[0] = h[1]; kind[0] = kind[1]; break;
        case 6: { mc::note("a = a"); set &r = **s[0]; **s[0] = r; break; }
        case 7: mc::note("look at a"); same("a", 0, d); break;
        case 8: { mc::note("sets kept in a growing vector, swapped");
            std::vector<set> v; v.push_back(**s[0]); v.push_back(**s[1]); v.insert(v.begin(), v[1]); std::swap(v[0], v[1]);
            // v: b a b -> a b b
            **s[0] = v[2]; **s[1] = v[0]; std::swap(h[0], h[1]); std::swap(kind[0], kind[1]); v.erase(v.begin()); break; }
        }
        mc::step();
    }
    push(0, 0); push(1, 1);
    same("a", 0);
    same("b", 1);
    push(0, 2);
    same("b, after a sample for a", 1);
    same("a, after another sample", 0, 1);
    mc::step();
}
template<class K> void c17(char const *name, int parts = 1) { mc::add_config(name, c17_body<K>, parts); }
