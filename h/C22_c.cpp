#include "ref.hpp"
#include <boost/mpl/always.hpp>
#include <boost/accumulators/accumulators.hpp>
// C22: visits.  A set of five numbered accumulators; every one of the 32 conditions "the number is in this set" is
// tried, with the order of the features and the number of samples before chosen freely.
using namespace boost::accumulators;
namespace {
template<int N> struct num_impl : accumulator_base {
    typedef int result_type;
    static constexpr int number = N;
    int calls;
    num_impl(dont_care) : calls(0) {}
    void operator()(dont_care) { ++calls; }
    int result(dont_care) const { return calls; }
};
template<int N> struct num : depends_on<> { typedef boost::mpl::always<num_impl<N> > impl; };
struct tally { std::vector<int> *out; std::vector<void *> *where; template<class A> void operator()(A &a) const { out->push_back(A::number); where->push_back(&a); a.calls += 10; } };
template<int Mask> struct in { template<class A> struct apply : boost::mpl::bool_<(Mask >> A::number & 1) != 0> {}; };
template<class Set, int Mask> void one(Set &s, std::vector<int> &out, std::vector<void *> &where) { s.template visit_if<in<Mask> >(tally{&out, &where}); }
template<class Set, int... M> void by_mask(int m, Set &s, std::vector<int> &out, std::vector<void *> &where, std::integer_sequence<int, M...>)
{
    typedef void (*fn)(Set &, std::vector<int> &, std::vector<void *> &);
    static fn const f[] = {&one<Set, M>...};
    f[m](s, out, where);
}
template<class Features> void visits()
{
    typedef accumulator_set<double, Features> set;
    mc::fresh<set> s; s.make();
    int calls[5] = {0, 0, 0, 0, 0};
    std::vector<int> all; std::vector<void *> at;
    s->visit(tally{&all, &at}); for (int &c : calls) c += 10;
    { std::vector<int> t = all; std::sort(t.begin(), t.end()); mc::check_true("a visit reaches every accumulator exactly once", t == std::vector<int>({0, 1, 2, 3, 4})); }
    for (int d = 0; d < mc::depth(2, 3); ++d) {
        int const m = mc::choose(34);
        mc::note(m < 32 ? "conditional visit %d" : "visit / sample %d", m);
        std::vector<int> out, want; std::vector<void *> w, ww;
        if (m == 33) { (*s)(1.); for (int &c : calls) ++c; }
        else {
            if (m == 32) s->visit(tally{&out, &w}); else by_mask(m, *s, out, w, std::make_integer_sequence<int, 32>());
            for (int i = 0; i < 5; ++i) if (m == 32 || (m >> all[i] & 1)) { want.push_back(all[i]); ww.push_back(at[i]); calls[all[i]] += 10; }
            mc::check_true("the visited accumulators, in the order of a visit", out == want);
            mc::check_true("the visited objects are those in the set", w == ww);
        }
        int const got[] = {extract_result<num<0> >(*s), extract_result<num<1> >(*s), extract_result<num<2> >(*s), extract_result<num<3> >(*s), extract_result<num<4> >(*s)};
        for (int i = 0; i < 5; ++i) mc::check_eq("visits of one accumulator", got[i], calls[i]);
        void *const found[] = {&find_accumulator<num<0> >(*s), &find_accumulator<num<1> >(*s), &find_accumulator<num<2> >(*s), &find_accumulator<num<3> >(*s), &find_accumulator<num<4> >(*s)};
        for (int i = 0; i < 5; ++i) mc::check_true("looking up finds the accumulator that a visit reaches", found[all[i]] == at[i]);
        mc::step();
    }
}
}
MC_REGISTER
{
    mc::add_config("conditional visits, five accumulators", visits<features<num<0>, num<1>, num<2>, num<3>, num<4> > >);
    mc::add_config("conditional visits, another order", visits<features<num<3>, num<0>, num<4>, num<2>, num<1> > >);
}
