#include "kits.hpp"
// C17: what was read from one set, and is kept as the range that the library returned, does not change when another
// set of the same kind is made, fed, read, assigned or destroyed.
namespace {
template<class K, class Read> void held(Read read)
{
    typedef typename K::set set;
    static int const start[] = {11, 5, 30};
    alt() = 0;
    mc::fresh<set> a; K::make(a);
    int const n = mc::pick(start);
    for (int i = 0; i < n; ++i) K::push(*a, (i * 5 + i / 3) % 3, i);
    std::unique_ptr<mc::fresh<set> > b;
    auto const r = read(*a);
    vec first; put(first, r);
    mc::note("read a after %d samples: %s", n, show(first).c_str());
    auto same = [&](char const *when) { vec now; put(now, r); for (double v : now) mc::observe(v); if (!alike(first, now)) mc::fail("what was read from a is %s; %s it is %s", show(first).c_str(), when, show(now).c_str()); };
    int clock = 100;
    for (int d = 0, D = mc::depth(4, 5); d < D; ++d) {
        switch (mc::choose(b ? 5 : 2)) {
        case 0: mc::note("b := copy of a"); b.reset(new mc::fresh<set>); b->make(*a); break;
        case 1: mc::note("b := a new set with other parameters, fed"); b.reset(new mc::fresh<set>); alt() = 1; K::make(*b); alt() = 0; for (int i = 0; i < 12; ++i, ++clock) K::push(**b, clock % 3, clock); break;
        case 2: mc::note("push b"); K::push(**b, d, clock); ++clock; break;
        case 3: { mc::note("read b"); auto const q = read(**b); vec x; put(x, q); same("with b read"); break; }
        case 4: mc::note("b destroyed"); b.reset(); break;
        }
        same("after that");
        mc::step();
    }
}
}
#define HELD(K, e) mc::add_config("held: " #K " " #e, [] { held<K>([](K::set const &s) { return e; }); })
MC_REGISTER
{
    HELD(k_rolling, rolling_window(s));
    HELD(k_tail<left>, tail(s));
    HELD(k_tail<right>, tail(s));
    HELD(k_tail<right>, tail_variate(s));
    HELD(k_tail_means, tail_variate_means(s, quantile_probability = 0.5));
    HELD(k_weighted_tail, tail(s));
    HELD(k_weighted_tail, tail_weights(s));
    HELD(k_weighted_tail_means, relative_weighted_tail_variate_means(s, quantile_probability = 0.5));
    HELD(k_psquare, extended_p_square(s));
    HELD(k_psquare, p_square_cumulative_distribution(s));
    HELD(k_weighted_psquare, weighted_extended_p_square(s));
    HELD(k_weighted_psquare, weighted_p_square_cumulative_distribution(s));
    HELD(k_density, density(s));
    HELD(k_weighted_density, weighted_density(s));
    HELD(k_pot<right>, peaks_over_threshold(s));
    HELD(k_vector, mean(s));
}
