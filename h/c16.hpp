#pragma once
#include "kits.hpp"
// C16: reading is harmless.  The same samples are pushed into a set that is read in every way the choices
// allow and into a twin that is read once, at the end; whatever is read is compared with a set built for the
// purpose that was never read before (a different one per result, so that a result cannot depend on another
// being read first either).  Among the samples are, where equal samples are interchangeable, repetitions and
// the very values that were read.
template<class K, bool Ties> void c16_body()
{
    static auto const L = K::looks();
    int const n = (int)L.size();
    static int const start[] = {0, 2, 4, 11};
    // with large parameters: after a long history, fewer choices
    bool const big = !std::is_base_of<no_params, K>::value && mc::choose(2);
    alt() = big ? 2 : 0;
    mc::fresh<typename K::set> f;
    K::make(f);
    history h;
    auto push = [&](int sym) { K::push(*f, sym, (int)h.size()); h.push_back({sym, (int)h.size()}); mc::note("push symbol %d (sample %d)", sym, (int)h.size()); };
    double last = std::nan("");
    plateau() = Ties && mc::choose(2);
    found().clear();
    auto look = [&](int k) {
        auto const &l = L[k];
        vec a, b, c;
        l.read(*f, a); l.read(*f, b);
        for (double v : a) mc::observe(v);
        mc::note("  read %s: %s", l.name, show(a).c_str());
        if (!a.empty()) last = a[0];
        if (!alike(a, b)) mc::fail("%s read twice: %s, then %s", l.name, show(a).c_str(), show(b).c_str());
        mc::fresh<typename K::set> t; replay_into<K>(t, h);
        l.read(*t, c);
        if (!alike(a, c)) mc::fail("%s gives %s; a set fed the same samples and never read gives %s", l.name, show(a).c_str(), show(c).c_str());
    };
    int const pre = big ? mc::choose(2) ? 30 : 70 : start[mc::choose(4)];
    for (int i = 0; i < pre; ++i) push((i * 5 + i / 3) % 3);
    int const D = big ? 1 : mc::depth(2, 3);
    for (int d = 0; d <= D; ++d) {
        if (d) {
            int const syms = mc::thorough() ? 3 : 2, s = mc::choose(syms + (Ties && std::fabs(last) < 1e6));
            if (s < syms) push(s);
            else { found().push_back(last); push(100 + (int)found().size() - 1); }
        }
        int const m = mc::choose(n + 3);          // nothing, all, all backwards, exactly one
        if (m == 1) for (int k = 0; k < n; ++k) look(k);
        else if (m == 2) for (int k = n; k-- > 0;) look(k);
        else if (m > 2) { look(m - 3); }
        mc::step();
    }
    push(mc::thorough() ? mc::choose(3) : 0); push(2);
    for (int k = 0; k < n; ++k) look(k);
    push(0); push(1); push(0);
    for (int k = n; k-- > 0;) look(k);
    mc::step();
}
template<class K, bool Ties = true> void c16(char const *name, int parts = 1) { mc::add_config(name, c16_body<K, Ties>, parts); }
