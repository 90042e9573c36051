#pragma once
#include "probe.hpp"
// C19: droppable accumulators.  Model: the user's features, minus the dropped ones, are wanted; an accumulator
// goes on counting samples exactly as long as something wanted is, or depends on, it; one that is no longer
// needed is told so once, at that moment, and keeps its last result.
template<class... F> struct c19_run {
    typedef accumulator_set<double, features<F...> > set;
    template<class G> static void do_drop(set &s) { s.template drop<typename id_of<G>::plain>(); }
    template<class G> static int value(set const &s) { return extractor<typename id_of<G>::plain>()(s); }
    static void body()
    {
        std::vector<int> const user = { id_of<F>::value... };
        std::vector<int> const can = { id_of<F>::drop... };
        static void (*const drops[])(set &) = { &do_drop<F>... };
        static int (*const values[])(set const &) = { &value<F>... };
        int const U = (int)user.size();
        std::unique_ptr<mc::fresh<set> > s(new mc::fresh<set>);
        s->make();
        selection const sel(user, members(**s));
        std::vector<int> gone(U, 0);
        std::array<bool, NF> all; all.fill(false);
        for (int c : user) sel.close(c, all);
        std::array<int, NF> n, d; n.fill(0); d.fill(0);
        auto live = [&] { std::array<bool, NF> l; l.fill(false); for (int i = 0; i < U; ++i) if (!gone[i]) sel.close(user[i], l); return l; };
        auto check = [&](char const *when) {
            for (auto &a : members(**s)) {
                if (!all[a.id]) continue;            // named, but an equivalent feature was taken instead
                mc::observe(a.n); mc::observe(a.drops);
                if (a.n != n[a.id]) mc::fail("%s: feature %d has counted %d samples, expected %d", when, a.id, a.n, n[a.id]);
                if (a.drops != d[a.id]) mc::fail("%s: feature %d was told %d times that it is dropped, expected %d", when, a.id, a.drops, d[a.id]);
            }
            for (int i = 0; i < U; ++i) mc::check_eq("the result of a feature", values[i](**s), n[user[i]]);
        };
        int const D = mc::depth(7, 9);
        for (int step = 0; step < D; ++step) {
            std::vector<int> can_drop;
            for (int i = 0; i < U; ++i) if (can[i] && !gone[i]) can_drop.push_back(i);
            int const op = mc::choose(2 + (int)can_drop.size());
            if (op == 0) {
                mc::note("a sample");
                (**s)(1.0);
                auto const l = live();
                for (int c = 0; c < NF; ++c) if (l[c]) ++n[c];
            } else if (op == 1) {
                mc::note("replaced by a copy (%s)", step & 1 ? "constructed" : "assigned");
                std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>); 
                if (step & 1) t->make(**s); else { t->make(); (**t)(2.0); **t = **s; }
                (**s)(1.0); s = std::move(t);
            } else {
                int const i = can_drop[op - 2];
                mc::note("drop feature %d", user[i]);
                auto const before = live();
                gone[i] = 1;
                auto const after = live();
                for (int c = 0; c < NF; ++c) if (before[c] && !after[c]) ++d[c];
                dropped_log.clear();
                drops[i](**s);
                // what others depend on goes only after them
                for (std::size_t x = 0; x < dropped_log.size(); ++x) for (std::size_t y = x + 1; y < dropped_log.size(); ++y) {
                    std::array<bool, NF> below; below.fill(false);
                    sel.close(dropped_log[y], below);
                    if (dropped_log[x] != dropped_log[y] && below[dropped_log[x]]) mc::fail("feature %d was dropped before %d, which depends on it", dropped_log[x], dropped_log[y]);
                }
            }
            check("after a step");
            mc::step();
        }
    }
};
template<class... F> void c19(char const *name, int parts = 1) { mc::add_config(name, c19_run<F...>::body, parts); }
