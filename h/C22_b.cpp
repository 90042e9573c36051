#include "ref.hpp"
#include <memory>
#include <boost/mpl/always.hpp>
#include <boost/accumulators/accumulators.hpp>
// C22: any number of named values, in either order, with the sample by position, by name or not at all,
// reaches every accumulator - when a set is made, when a sample is added and when a result is read.
using namespace boost::accumulators;
namespace {
template<int I> struct ktag { typedef boost::parameter::forward_reference qualifier; };
static int const K = 14;
#define KEY(I) (boost::parameter::keyword<ktag<I> >::instance)
struct seen { double s, k[K]; };
template<class Args, int... I> seen look(Args const &args, std::integer_sequence<int, I...>)
{
    return seen{(double)args[sample | -1.], {(double)args[KEY(I) | -1.]...}};
}
template<class Args> seen look(Args const &args) { return look(args, std::make_integer_sequence<int, K>()); }
static void expect(char const *when, seen const &g, double s, int from, int n, double base)
{
    mc::observe(g.s);
    if (g.s != s) mc::fail("%s: sample %g instead of %g", when, g.s, s);
    for (int i = 0; i < K; ++i) {
        double const want = i >= from && i < from + n ? base + i : -1;
        if (g.k[i] != want) mc::fail("%s: named value %d is %g instead of %g", when, i, g.k[i], want);
    }
}
template<int N> struct probe_impl : accumulator_base {
    typedef std::vector<seen> result_type;            // at construction, at the last update, at this reading
    seen made, last; int calls;
    template<class A> probe_impl(A const &args) : made(look(args)), last(), calls(0) {}
    template<class A> void operator()(A const &args) { last = look(args); ++calls; }
    template<class A> result_type result(A const &args) const { result_type r; r.push_back(made); r.push_back(last); r.push_back(look(args)); seen c; c.s = calls; r.push_back(c); return r; }
};
namespace tags {
    struct plain : depends_on<> { typedef boost::mpl::always<probe_impl<0> > impl; };
    template<int N, class T> struct param : depends_on<plain> { typedef boost::mpl::always<probe_impl<N> > impl; };
}
extractor<tags::plain> const plain = {};
BOOST_ACCUMULATORS_DEFINE_EXTRACTOR(tags, param, (int)(typename))
typedef accumulator_set<double, features<tags::param<2, char>, tags::plain> > set;

static double store[3][K + 1];
template<int... I> struct keys {};
template<int From, int... I> keys<(From + I)...> up(std::integer_sequence<int, I...>) { return keys<(From + I)...>(); }
template<int From, int N, int... I> keys<(From + N - 1 - I)...> down(std::integer_sequence<int, I...>) { return keys<(From + N - 1 - I)...>(); }
// how: 0 the sample by position, 1 by name first, 2 by name last, 3 no sample
template<int... I> void push(set &s, int how, double x, double const *v, keys<I...>)
{
    switch (how) {
    case 0: s(x, (KEY(I) = v[I])...); break;
    case 1: s(sample = x, (KEY(I) = v[I])...); break;
    case 2: s((KEY(I) = v[I])..., sample = x); break;
    case 3: s((KEY(I) = v[I])...); break;
    }
}
template<int... I> void make(mc::fresh<set> &s, int how, double x, double const *v, keys<I...>)
{
    switch (how) {
    case 0: s.make(x, (KEY(I) = v[I])...); break;
    case 1: s.make(sample = x, (KEY(I) = v[I])...); break;
    case 2: s.make((KEY(I) = v[I])..., sample = x); break;
    case 3: s.make((KEY(I) = v[I])...); break;
    }
}
template<int... I> std::vector<seen> ask(set const &s, int how, int form, double x, double const *v, keys<I...>)
{
    if (form == 0) switch (how) {
    case 0: return extract_result<tags::plain>(s, x, (KEY(I) = v[I])...);
    case 1: return extract_result<tags::plain>(s, sample = x, (KEY(I) = v[I])...);
    case 2: return extract_result<tags::plain>(s, (KEY(I) = v[I])..., sample = x);
    default: return extract_result<tags::plain>(s, (KEY(I) = v[I])...);
    }
    if (form == 1) switch (how) {
    case 0: return plain(s, x, (KEY(I) = v[I])...);
    case 1: return plain(s, sample = x, (KEY(I) = v[I])...);
    case 2: return plain(s, (KEY(I) = v[I])..., sample = x);
    default: return plain(s, (KEY(I) = v[I])...);
    }
    switch (how) {
    case 0: return param<2, char>(s, x, (KEY(I) = v[I])...);
    case 1: return param<2, char>(s, sample = x, (KEY(I) = v[I])...);
    case 2: return param<2, char>(s, (KEY(I) = v[I])..., sample = x);
    default: return param<2, char>(s, (KEY(I) = v[I])...);
    }
}
static char const *hows[] = {"sample by position", "sample named first", "sample named last", "no sample"};
template<int From, int N> struct one {
    static void run()
    {
        int const hm = mc::choose(4), hp = mc::choose(4), hr = mc::choose(4), form = mc::choose(3); bool const rev = mc::choose(2);
        mc::note("%d named values from number %d on, %s; made: %s, added: %s, read: %s", N, From, rev ? "backwards" : "in order", hows[hm], hows[hp], hows[hr]);
        for (int j = 0; j < 3; ++j) for (int i = 0; i < K; ++i) store[j][i] = 100 * (j + 1) + i;
        auto const u = up<From>(std::make_integer_sequence<int, N>()); auto const d = down<From, N>(std::make_integer_sequence<int, N>());
        mc::fresh<set> s;
        if (rev) make(s, hm, 11., store[0], d); else make(s, hm, 11., store[0], u);
        for (int t = 1; t <= 2; ++t) {
            if (rev) push(*s, hp, 12., store[1], d); else push(*s, hp, 12., store[1], u);
            std::vector<seen> const r = rev ? ask(*s, hr, form, 13., store[2], d) : ask(*s, hr, form, 13., store[2], u);
            expect("made", r[0], hm == 3 ? -1 : 11, From, N, 100);
            expect("added", r[1], hp == 3 ? -1 : 12, From, N, 200);
            expect("read", r[2], hr == 3 ? -1 : 13, From, N, 300);
            mc::check_eq("number of updates", (int)r[3].s, t);
            mc::step();
        }
    }
};
}
MC_REGISTER
{
#define RUN(F, N) mc::add_config("named values: " #N " from " #F, one<F, N>::run)
    RUN(0, 0); RUN(0, 1); RUN(3, 1); RUN(0, 2); RUN(1, 3); RUN(2, 4); RUN(0, 5);
    RUN(4, 6); RUN(0, 7); RUN(5, 8); RUN(1, 9); RUN(0, 10); RUN(2, 11); RUN(1, 12); RUN(0, 13); RUN(0, 14);
}
