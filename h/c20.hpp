#pragma once
#include "probe.hpp"
// C20: whatever features are asked for, in whatever order, the set holds each of them and everything they
// depend on exactly once, and every sample reaches every accumulator exactly once, dependencies first.
typedef void (*case_fn)();
template<class... F> void c20_case()
{
    typedef accumulator_set<double, features<F...> > set;
    std::vector<int> user = { id_of<F>::value... };
    // of two ways to provide the same feature the first one asked for counts
    std::vector<int> wanted;
    for (int c : user) { bool dup = false; for (int k : wanted) dup |= shapes[k].provides == shapes[c].provides; if (!dup) wanted.push_back(c); }
    std::string t; for (int c : user) t += " " + std::to_string(c);
    mc::note("features%s", t.c_str());
    built.clear();
    mc::fresh<set> s; s.make();
    auto const m = members(*s);
    // everything asked for, and the dependencies of all of it
    std::vector<int> all = user;
    selection const sel(wanted, m, all);
    std::array<int, NF> count; count.fill(0);
    int const pushes = 3;
    for (int k = 1; k <= pushes; ++k) {
        updated.clear();
        (*s)(1.0);
        std::array<int, NF> at; at.fill(-1);
        for (std::size_t i = 0; i < updated.size(); ++i) {
            int const c = updated[i];
            if (at[c] >= 0) mc::fail("features%s: one sample reached feature %d twice", t.c_str(), c);
            at[c] = (int)i;
        }
        for (auto &a : m) if (at[a.id] < 0) mc::fail("features%s: a sample did not reach feature %d", t.c_str(), a.id);
        for (auto &a : m) for (int d : sel.deps(a.id))
            if (at[d] > at[a.id]) mc::fail("features%s: feature %d was updated before %d, on which it depends", t.c_str(), a.id, d);
        for (int c : updated) mc::observe(c);
        mc::step();
    }
    for (auto &a : members(*s)) mc::check_eq("samples seen", a.n, pushes);
}
