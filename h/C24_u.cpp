#include "c24.hpp"
// A number type of the user's, with operators of its own and function objects specialised by tag, as the
// documentation describes; and user types that only have operators.
namespace user {
    struct ticks { long n; ticks(long v = 0) : n(v) {} };       // one operator only
    inline ticks &operator+=(ticks &a, ticks b) { a.n += b.n; return a; }
    struct plain { long n; plain(long v = 0) : n(v) {} };       // operators only
    inline plain operator+(plain a, plain b) { return plain(a.n + b.n); }
    inline plain operator-(plain a, plain b) { return plain(a.n - b.n); }
    inline plain operator*(plain a, plain b) { return plain(a.n * b.n); }
    inline plain operator/(plain a, plain b) { return plain(a.n / b.n); }
    inline plain operator%(plain a, plain b) { return plain(a.n % b.n); }
    inline plain &operator+=(plain &a, plain b) { a.n += b.n; return a; }
    inline plain &operator-=(plain &a, plain b) { a.n -= b.n; return a; }
    inline plain &operator*=(plain &a, plain b) { a.n *= b.n; return a; }
    inline plain &operator/=(plain &a, plain b) { a.n /= b.n; return a; }
    inline plain &operator%=(plain &a, plain b) { a.n %= b.n; return a; }
    inline plain operator-(plain a) { return plain(-a.n); }
    inline plain operator+(plain a) { return a; }
    inline plain operator~(plain a) { return plain(~a.n); }
    inline bool operator!(plain a) { return !a.n; }
    // an order of its own: by the last digit
    inline long rank(plain a) { return a.n % 10; }
    inline bool operator<(plain a, plain b) { return rank(a) < rank(b); }
    inline bool operator>(plain a, plain b) { return rank(a) > rank(b); }
    inline bool operator<=(plain a, plain b) { return rank(a) <= rank(b); }
    inline bool operator>=(plain a, plain b) { return rank(a) >= rank(b); }
    inline bool operator==(plain a, plain b) { return rank(a) == rank(b); }
    inline bool operator!=(plain a, plain b) { return rank(a) != rank(b); }
    struct ticks_tag {};
}
namespace boost { namespace numeric { namespace functional {
    template<> struct tag<user::ticks> { typedef user::ticks_tag type; };
    template<class L, class R> struct plus<L, R, user::ticks_tag, user::ticks_tag> { typedef L first_argument_type; typedef R second_argument_type; typedef user::ticks result_type; result_type operator()(L &l, R &r) const { return user::ticks(l.n + r.n); } };
    template<class L, class R> struct plus_assign<L, R, user::ticks_tag, user::ticks_tag> { typedef L first_argument_type; typedef R second_argument_type; typedef L &result_type; result_type operator()(L &l, R &r) const { l.n += r.n; return l; } };
    template<class L, class R> struct fdiv<L, R, user::ticks_tag, void> { typedef L first_argument_type; typedef R second_argument_type; typedef double result_type; result_type operator()(L &l, R &r) const { return l.n / 1000. / r; } };
    template<class L, class R> struct multiplies<L, R, user::ticks_tag, void> { typedef L first_argument_type; typedef R second_argument_type; typedef user::ticks result_type; result_type operator()(L &l, R &r) const { return user::ticks(long(l.n * r)); } };
    template<class L, class R> struct min_assign<L, R, user::ticks_tag, user::ticks_tag> { typedef L first_argument_type; typedef R second_argument_type; typedef void result_type; void operator()(L &l, R &r) const { if (r.n < l.n) l = r; } };
    template<class L, class R> struct max_assign<L, R, user::ticks_tag, user::ticks_tag> { typedef L first_argument_type; typedef R second_argument_type; typedef void result_type; void operator()(L &l, R &r) const { if (r.n > l.n) l = r; } };
    template<class T> struct as_min<T, user::ticks_tag> { typedef T argument_type; typedef user::ticks result_type; result_type operator()(T &) const { return user::ticks(-1000000); } };
    template<class T> struct as_max<T, user::ticks_tag> { typedef T argument_type; typedef user::ticks result_type; result_type operator()(T &) const { return user::ticks(1000000); } };
    template<class T> struct unary_minus<T, user::ticks_tag> { typedef T argument_type; typedef user::ticks result_type; result_type operator()(T &t) const { return user::ticks(-t.n); } };
    template<class To, class From> struct promote<To, From, void, user::ticks_tag> { typedef From argument_type; typedef To result_type; To operator()(From &f) const { return To(f.n / 1000.); } };
}}}
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
namespace {
using namespace boost::accumulators;
using user::ticks; using user::plain;
static long const ns[] = {3, -14, 120, 23};
void specialised()
{
    ticks a(mc::pick(ns)), b(mc::pick(ns)); ticks const ca = a, cb = b; long const x = a.n, y = b.n;
    mc::check_eq("plus", numeric::plus(a, b).n, x + y); mc::check_eq("plus", numeric::plus(ca, cb).n, x + y); mc::check_eq("plus", numeric::plus(a, cb).n, x + y); mc::check_eq("plus", numeric::plus(ca, b).n, x + y);
    int k = 1 + mc::choose(4); int const ck = k; double d = k; std::size_t s = k;
    mc::check_eq("fdiv", numeric::fdiv(a, k), x / 1000. / k); mc::check_eq("fdiv", numeric::fdiv(ca, ck), x / 1000. / k); mc::check_eq("fdiv", numeric::fdiv(a, d), x / 1000. / k); mc::check_eq("fdiv", numeric::fdiv(ca, s), x / 1000. / k); mc::check_eq("average", numeric::average(ca, s), x / 1000. / k);
    mc::check_eq("multiplies", numeric::multiplies(a, k).n, x * k); mc::check_eq("multiplies", numeric::multiplies(ca, ck).n, x * k);
    mc::check_eq("unary_minus", numeric::unary_minus(a).n, -x); mc::check_eq("unary_minus", numeric::unary_minus(ca).n, -x);
    mc::check_eq("as_min", numeric::as_min(a).n, -1000000L); mc::check_eq("as_max", numeric::as_max(ca).n, 1000000L);
    mc::check_eq("promote", numeric::promote<double>(a), x / 1000.); 
    agree_at("promote to the same type", &numeric::promote<ticks>(a), &a); agree_at("promote to the same type", &numeric::promote<ticks>(ca), &ca);
    if (a.n != x || b.n != y) mc::fail("operands changed");
    ticks t = a; numeric::min_assign(t, cb); mc::check_eq("min_assign", t.n, x < y ? x : y); t = a; numeric::max_assign(t, b); mc::check_eq("max_assign", t.n, x < y ? y : x);
    t = a; agree_at("plus_assign", &numeric::plus_assign(t, cb), &t); mc::check_eq("plus_assign", t.n, x + y);
    mc::step();
}
// statistics of a type that has little but the specialised function objects
void statistics_of_ticks()
{
    accumulator_set<ticks, stats<tag::min, tag::max, tag::count> > e;
    accumulator_set<ticks, stats<tag::sum, tag::mean(lazy)> > s;
    long sum_ = 0, lo = 0, hi = 0;
    for (int i = 0, n = 1 + mc::choose(mc::depth(5, 7)); i < n; ++i) {
        long const v = mc::pick(ns); e(ticks(v)); s(ticks(v));
        sum_ += v; lo = i ? std::min(lo, v) : v; hi = i ? std::max(hi, v) : v;
        mc::check_eq("min", (min)(e).n, lo); mc::check_eq("max", (max)(e).n, hi);
        mc::check_eq("sum", sum(s).n, sum_); mc::check_near("mean", mean(s), sum_ / 1000.L / (i + 1), 1e-12L);
        mc::step();
    }
}
// operators of the user's are used as they are, whatever they mean
void operators()
{
    plain a(mc::pick(ns)), b(mc::pick(ns)); plain const ca = a, cb = b; long const x = a.n, y = b.n;
#define TWO(N, OP) mc::check_eq(#N, numeric::N(a, b).n, (ca OP cb).n); mc::check_eq(#N, numeric::N(ca, cb).n, (ca OP cb).n); mc::check_eq(#N, numeric::N(ca, b).n, (ca OP cb).n);
    TWO(plus, +) TWO(minus, -) TWO(multiplies, *) TWO(divides, /) TWO(modulus, %)
    mc::check_eq("fdiv", numeric::fdiv(a, b).n, x / y);
#define CMP(N, OP) mc::check_eq(#N, numeric::N(a, b), ca OP cb); mc::check_eq(#N, numeric::N(ca, cb), ca OP cb);
    CMP(less, <) CMP(less_equal, <=) CMP(greater, >) CMP(greater_equal, >=) CMP(equal_to, ==) CMP(not_equal_to, !=)
    mc::check_eq("unary_minus", numeric::unary_minus(a).n, -x); mc::check_eq("unary_plus", numeric::unary_plus(ca).n, x); mc::check_eq("complement", numeric::complement(ca).n, ~x); mc::check_eq("logical_not", numeric::logical_not(a), !x);
#define ACT(N, OP) { plain t = a, m = a; agree_at(#N, &numeric::N(t, cb), &t); m OP cb; mc::check_eq(#N, t.n, m.n); }
    ACT(assign, =) ACT(plus_assign, +=) ACT(minus_assign, -=) ACT(multiplies_assign, *=) ACT(divides_assign, /=) ACT(modulus_assign, %=)
    if (a.n != x || b.n != y) mc::fail("operands changed");
    mc::step();
}
void extremes_of_plain()
{
    plain x(mc::pick(ns)); long m = x.n;
    for (int i = 0; i < mc::depth(4, 5); ++i) {
        plain const b(mc::pick(ns) + 10 * mc::choose(3));
        if (mc::choose(2)) { numeric::min_assign(x, b); if (b.n % 10 < m % 10) m = b.n; }
        else { numeric::max_assign(x, b); if (b.n % 10 > m % 10) m = b.n; }
        mc::check_eq("the extreme", x.n % 10, m % 10);
        mc::step();
    }
}
} // namespace
MC_REGISTER
{
    mc::add_config("function objects specialised by tag", specialised);
    mc::add_config("statistics of a specialised type", statistics_of_ticks, 2);
    mc::add_config("operators of a user type", operators);
    mc::add_config("extremes of a user type", extremes_of_plain, 2);
}
