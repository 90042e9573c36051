#pragma once
#include <sstream>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/math/special_functions/nonfinite_num_facets.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/array.hpp>
#include "kits.hpp"
// C18: a set written to an archive and read back, into a set of the same kind that is new or has seen other
// samples, goes on exactly like the one that was written -- whenever it is written, however often, looked at
// before or not.
template<class K> void c18_body()
{
    typedef typename K::set set;
    static auto const L = K::looks();
    static int const start[] = {0, 2, 5, 11};
    std::unique_ptr<mc::fresh<set> > s(new mc::fresh<set>);
    int const size = std::is_base_of<no_params, K>::value ? 0 : mc::choose(3);
    bool const big = size != 0;
    int const kind = alt() = big ? size + 1 : 0;
    K::make(*s);
    history h;
    int clock = 0;
    auto push = [&](int sym) { mc::note("push %d", sym); K::push(**s, sym, clock); h.push_back({sym, clock}); ++clock; };
    int const pre = size == 2 ? 350 : big ? mc::choose(2) ? 30 : 70 : start[mc::choose(4)];
    for (int i = 0; i < pre; ++i) push((i * 5 + i / 3) % 3);
    int const D = size == 2 ? 1 : big ? 2 : mc::depth(3, 4);
    for (int d = 0; d < D; ++d) {
        int const op = mc::choose(8);
        if (op < 2) push(op);
        else if (op == 2) { mc::note("look"); same_as_fresh<K>("before", **s, h, d); }
        else {
            bool const text = op == 3 || op == 4, dirty = op == 4 || op == 6 || op == 7, equal = op == 7;
            mc::note("save and load (%s archive, into a %s set)", text ? "text" : "binary", equal ? "similar" : dirty ? "used" : "new");
            // NaN and infinity in text archives take the facets that Boost.Serialization documents for them
            static std::locale const finite(std::locale(std::locale::classic(), new boost::math::nonfinite_num_put<char>), new boost::math::nonfinite_num_get<char>);
            std::ostringstream o; o.imbue(finite);
            // among other things: a number before and one after it
            int const before = 17, after = 23; set const &cs = **s;
            if (text) { boost::archive::text_oarchive a(o, boost::archive::no_codecvt); a << before; if (d & 1) a << cs; else (**s).serialize(a, 0); a << after; }
            else { boost::archive::binary_oarchive a(o); a << before; (**s).serialize(a, 0); a << after; }
            std::unique_ptr<mc::fresh<set> > t(new mc::fresh<set>);
            // the archive holds the parameters, too: a set made with others takes over those of the one written
            // (a similar set: same parameters, as many samples, read before)
            alt() = !dirty || equal ? kind : big ? 0 : 1; K::make(*t); alt() = kind;
            if (dirty) {
                for (int i = 0; i < (equal ? (int)h.size() : 9); ++i) K::push(**t, (i * i + 1) % 3, 100 + i);
                if (equal || d & 1) for (auto &l : L) { vec v; l.read(**t, v); }
            }
            s = nullptr;                                     // the archive has to hold everything
            std::istringstream in(o.str()); in.imbue(finite);
            int first = 0, last = 0;
            if (text) { boost::archive::text_iarchive a(in, boost::archive::no_codecvt); a >> first; if (d & 1) a >> **t; else (**t).serialize(a, 0); a >> last; }
            else { boost::archive::binary_iarchive a(in); a >> first; (**t).serialize(a, 0); a >> last; }
            mc::check_eq("what was written before the set", first, before); mc::check_eq("what was written after the set", last, after);
            s = std::move(t);
        }
        mc::step();
    }
    if (mc::choose(2)) same_as_fresh<K>("at once", **s, h, 2);
    push(0);
    same_as_fresh<K>("one sample later", **s, h);
    push(2); push(1);
    same_as_fresh<K>("three samples later", **s, h, 1);
    mc::step();
}
template<class K> void c18(char const *name, int parts = 1) { mc::add_config(name, c18_body<K>, parts); }
