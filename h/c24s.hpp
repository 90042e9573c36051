#pragma once
#include "c24.hpp"
namespace {
#define TRY(O) if (defined<R, L, R>(O::k, a, b) && defined<L, L, L>(O::k, a, a)) binary<O>(a, b);
template<class L, class R, bool Integral> struct only_integral {
    static void binary_ops(L a, R b) { TRY(o_modulus) agree("fdiv", numeric::fdiv(a, b), double(a) / double(b)); agree("average", numeric::average(a, b), double(a) / double(b)); }
    static void step(int op, L &x, L &m, R b) { if (op == 7) in_place<o_modulus_assign>(x, m, b); }
};
template<class L, class R> struct only_integral<L, R, false> {
    static void binary_ops(L a, R b) { auto const want = o_divides::native(a, b); agree("fdiv", numeric::fdiv(a, b), want); agree("average", numeric::average(a, b), want); L const ca = a; R const cb = b; agree("fdiv", numeric::fdiv(ca, cb), want); }
    static void step(int, L &, L &, R) {}
};
template<class L, class R> struct both { static bool const integral = std::is_integral<L>::value && std::is_integral<R>::value; };
// every pair of values, every operator
template<class L, class R> void scalar_pairs()
{
    L const a = values<L>::all()[mc::choose((int)values<L>::all().size())]; R const b = values<R>::all()[mc::choose((int)values<R>::all().size())];
    mc::note("  operands %s and %s", show(a).c_str(), show(b).c_str());
    TRY(o_plus) TRY(o_minus) TRY(o_multiplies) TRY(o_divides)
    TRY(o_greater) TRY(o_greater_equal) TRY(o_less) TRY(o_less_equal) TRY(o_equal_to) TRY(o_not_equal_to)
    only_integral<L, R, both<L, R>::integral>::binary_ops(a, b);
    mc::step();
}
// every history of in-place operations
template<class L, class R> void scalar_histories()
{
    L x = values<L>::all()[mc::choose((int)values<L>::all().size())], m = x;
    int const depth = mc::depth(2, 3);
    for (int i = 0; i < depth; ++i) {
        int const op = mc::choose(both<L, R>::integral ? 8 : 7);
        std::vector<R> const &dom = i ? values<R>::few() : values<R>::all();
        R b = dom[mc::choose((int)dom.size())]; R const b0 = b;
        if (op == 1 || op == 2 || op == 3 || op == 4 || op == 7) { if (!defined<L, L, R>(op == 1 ? k_add : op == 2 ? k_sub : op == 3 ? k_mul : op == 4 ? k_div : k_mod, m, b)) return; }
        else if (!defined<L, L, R>(k_add, L(0), b)) return;
        mc::note("  op %d with %s", op, show(b).c_str());
        switch (op) {
            case 0: in_place<o_assign>(x, m, b); break;
            case 1: in_place<o_plus_assign>(x, m, b); break;
            case 2: in_place<o_minus_assign>(x, m, b); break;
            case 3: in_place<o_multiplies_assign>(x, m, b); break;
            case 4: in_place<o_divides_assign>(x, m, b); break;
            case 5: if (mc::choose(2)) numeric::min_assign(x, b0); else numeric::min_assign(x, b); if (b < m) m = b; break;
            case 6: if (mc::choose(2)) numeric::max_assign(x, b0); else numeric::max_assign(x, b); if (b > m) m = b; break;
            default: only_integral<L, R, both<L, R>::integral>::step(op, x, m, b);
        }
        if (!same(b, b0)) mc::fail("an operation changes its right operand");
        agree("the object", x, m);
        mc::step();
    }
}
template<class To, class From> void promotions(From from)
{
    From const cf = from;
    if (!defined<To, From, From>(k_add, from, From(0))) return;
    agree("promote", numeric::promote<To>(from), To(cf));
    agree("promote", numeric::promote<To>(cf), To(cf));
    typedef numeric::functional::promote<To, From> by_type;
    agree("promote", by_type()(from), To(cf));
}
template<class T> void same_promotion(T t)
{
    T const ct = t;
    agree_at("promote to the same type", &numeric::promote<T>(t), &t);
    agree_at("promote to the same type", &numeric::promote<T>(ct), &ct);
    agree("promote", numeric::promote<T>(t), ct);
}
// limits, zero, one of a type, at every value of it
template<class T> void limits(T t)
{
    T const ct = t;
    typedef std::numeric_limits<T> L;
    T const lo = std::is_floating_point<T>::value ? T(-(L::max)()) : (L::min)(), hi = (L::max)();
    agree("as_min", numeric::as_min(t), lo); agree("as_min", numeric::as_min(ct), lo);
    agree("as_max", numeric::as_max(t), hi); agree("as_max", numeric::as_max(ct), hi);
    agree("as_zero", numeric::as_zero(t), T(0)); agree("as_zero", numeric::as_zero(ct), T(0));
    agree("as_one", numeric::as_one(t), T(1)); agree("as_one", numeric::as_one(ct), T(1));
    agree("zero", numeric::zero<T>::value, T(0)); agree("one", numeric::one<T>::value, T(1));
    T const &z = numeric::zero_or_default<T>(); agree("zero_or_default", z, T(0));
    T const &o = numeric::one_or_default<T>(); agree("one_or_default", o, T(1));
    T const &d = numeric::default_<T>(); agree("default_", d, T());
}
template<class T, bool I> struct bits { static void go(T a) { unary<u_complement>(a); } };
template<class T> struct bits<T, false> { static void go(T) {} };
template<class T> void scalar_one()
{
    T const a = values<T>::all()[mc::choose((int)values<T>::all().size())];
    mc::note("  operand %s", show(a).c_str());
    unary<u_unary_plus>(a);
    if (defined<T, T, T>(k_sub, T(0), a)) unary<u_unary_minus>(a);
    unary<u_logical_not>(a);
    bits<T, std::is_integral<T>::value>::go(a);
    same_promotion(a);
    limits(a);
    promotions<short>(a); promotions<int>(a); promotions<unsigned>(a); promotions<long long>(a); promotions<float>(a); promotions<double>(a); promotions<long double>(a); promotions<bool>(a);
    mc::step();
}
template<class L, class R> void pair_of(std::string const &l, std::string const &r)
{
    mc::add_config("operators: " + l + ", " + r, scalar_pairs<L, R>);
    mc::add_config("in place: " + l + ", " + r, scalar_histories<L, R>);
}
template<class L> void left_of(std::string const &l)
{
    mc::add_config("one operand: " + l, scalar_one<L>);
    pair_of<L, signed char>(l, "signed char");
    pair_of<L, short>(l, "short");
    pair_of<L, int>(l, "int");
    pair_of<L, unsigned>(l, "unsigned");
    pair_of<L, long long>(l, "long long");
    pair_of<L, std::size_t>(l, "std::size_t");
    pair_of<L, float>(l, "float");
    pair_of<L, double>(l, "double");
    pair_of<L, long double>(l, "long double");
}
} // namespace
