#include "c24v.hpp"
namespace {
template<class T> void valarray_valarray()
{
    int const n = size_();
    typedef std::valarray<T> A;
    A const a = array_of<A>(n, dom3<T>()), b = array_of<A>(n, dom2<T>());
    mc::note("  operands %s and %s", show(a).c_str(), show(b).c_str());
    A na = a, nb = b;
#define ONE(N, OP) { A want(n); for (int i = 0; i < n; ++i) want[i] = a[i] OP b[i]; \
        agree(#N, A(numeric::N(a, b)), want); agree(#N, A(numeric::N(na, nb)), want); agree(#N, A(numeric::N(na, b)), want); agree(#N, A(numeric::N(a, nb)), want); }
    ONE(plus, +) ONE(minus, -) ONE(multiplies, *) ONE(divides, /)
    // expressions as operands
    { A want(n); for (int i = 0; i < n; ++i) want[i] = (a[i] * b[i]) - (a[i] + b[i]); agree("an expression", A(numeric::minus(a * b, a + b)), want); }
    { A want(n); for (int i = 0; i < n; ++i) want[i] = a[i] + (a[i] - b[i]); agree("an expression", A(numeric::plus(a, a - b)), want); }
    { A want(n); for (int i = 0; i < n; ++i) want[i] = (a[i] - b[i]) * b[i]; agree("an expression", A(numeric::multiplies(a - b, b)), want); }
    bool all = true, lt = true; for (int i = 0; i < n; ++i) { all = all && a[i] == b[i]; lt = lt && a[i] < b[i]; }
    A const c(a);
    if (n) {
        mc::check_eq("promote<bool>(a == b)", numeric::promote<bool>(a == b), all);
        mc::check_eq("promote<bool>(a < b)", numeric::promote<bool>(a < b), lt);
        mc::check_eq("promote<bool>(a == a)", numeric::promote<bool>(a == c), true);
    }
    std::valarray<bool> flags(n); bool want = true;
    for (int i = 0; i < n; ++i) { flags[i] = mc::choose(2); want = want && flags[i]; }
    std::valarray<bool> const cflags(flags);
    mc::check_eq("promote<bool>(flags)", numeric::promote<bool>(flags), want);
    mc::check_eq("promote<bool>(flags)", numeric::promote<bool>(cflags), want);
    if (!same(a, na) || !same(b, nb)) mc::fail("an operator changes its operands");
    mc::step();
}
template<class L, class R> void valarrays_mixed()
{
    int const n = size_();
    typedef std::valarray<L> A; typedef std::valarray<R> B;
    A const a = array_of<A>(n, dom3<L>()); B const b = array_of<B>(n, dom2<R>());
    using namespace boost::numeric::operators;
    agree("a + b", a + b, lift<o_plus, A>::vv(a, b));
    mc::step();
}
template<class L, class R> void valarray_scalar()
{
    int const n = size_();
    typedef std::valarray<L> A;
    A const a = array_of<A>(n, dom3<L>()); R const b = dom2<R>()[mc::choose(2)];
    mc::note("  operands %s and %s", show(a).c_str(), show(b).c_str());
    all_ways<o_multiplies>(a, b, lift<o_multiplies, A>::vs(a, b));
    all_ways<o_divides>(a, b, lift<o_divides, A>::vs(a, b));
    all_ways<o_fdiv>(a, b, lift<o_fdiv, A>::vs(a, b));
    promote_one<R>(a);
    limits_of(a);
    mc::step();
}
template<class T, bool I> struct modulo { static void go(std::valarray<T> &x, std::valarray<T> &m, std::valarray<T> const &b) { agree_at("modulus_assign", &numeric::modulus_assign(x, b), &x); for (std::size_t j = 0; j < m.size(); ++j) m[j] %= b[j]; } };
template<class T> struct modulo<T, false> { static void go(std::valarray<T> &, std::valarray<T> &, std::valarray<T> const &) {} };
template<class T> void valarray_histories()
{
    typedef std::valarray<T> V;
    int const n = mc::choose(mc::depth(3, 4));
    V x = array_of<V>(n, dom2<T>()), m = x;
    for (int i = 0, depth = mc::depth(3, 4); i < depth; ++i) {
        int const op = mc::choose(std::is_integral<T>::value ? 8 : 7);
        V const b = array_of<V>(n, i ? dom2<T>() : dom3<T>());
        mc::note("  op %d with %s", op, show(b).c_str());
        V bb = b;
#define EACH(OP) for (int j = 0; j < n; ++j) m[j] OP b[j]
        switch (op) {
            case 0: agree_at("assign", &numeric::assign(x, bb), &x); m = b; break;
            case 1: agree_at("plus_assign", &numeric::plus_assign(x, b), &x); EACH(+=); break;
            case 2: agree_at("minus_assign", &numeric::minus_assign(x, bb), &x); EACH(-=); break;
            case 3: agree_at("multiplies_assign", &numeric::multiplies_assign(x, b), &x); EACH(*=); break;
            case 4: agree_at("divides_assign", &numeric::divides_assign(x, bb), &x); EACH(/=); break;
            case 5: extreme(x, m, b, true); break;
            case 6: extreme(x, m, b, false); break;
            default: { bool zero = false; for (int j = 0; j < n; ++j) zero = zero || b[j] == T(0); if (zero) return; modulo<T, std::is_integral<T>::value>::go(x, m, b); }
        }
        if (op == 4 || op == 0) for (int j = 0; j < n; ++j) if (m[j] != m[j]) return;
        agree("the object", x, m);
        if (!same(bb, b)) mc::fail("an operation changes its right operand");
        mc::step();
    }
}
template<class T> void wide_valarrays()
{
    int const n = wide_size();
    typedef std::valarray<T> A;
    A const a = wide<A>(n, mc::choose(4)), b = wide<A>(n, mc::choose(4), true);
    A na = a, nb = b;
    ONE(plus, +) ONE(minus, -) ONE(multiplies, *) ONE(divides, /)
    int const k = 1 + mc::choose(3); long const s = k; float const f = k + 0.5f;
    all_ways<o_multiplies>(a, s, lift<o_multiplies, A>::vs(a, s));
    all_ways<o_divides>(a, s, lift<o_divides, A>::vs(a, s));
    all_ways<o_fdiv>(a, s, lift<o_fdiv, A>::vs(a, s));
    if (!std::is_same<T, float>::value) { all_ways<o_multiplies>(a, f, lift<o_multiplies, A>::vs(a, f)); all_ways<o_fdiv>(a, f, lift<o_fdiv, A>::vs(a, f)); }
    promote_one<long double>(a); limits_of(a);
    A x = a, m = a;
    extreme(x, m, b, mc::choose(2)); agree("the object", x, m);
    // exactly one element differs
    int const at = mc::choose(n);
    std::valarray<bool> flags(true, n); mc::check_eq("promote<bool>(all true)", numeric::promote<bool>(flags), true);
    flags[at] = false; mc::check_eq("promote<bool>(one false)", numeric::promote<bool>(flags), false);
    mc::step();
}
// complex numbers and scalars of other types
template<class T, class U> void complex_scalar()
{
    static int const vs[] = {0, 3, -2, 7};
    typedef std::complex<T> C;
    C const z(T(mc::pick(vs)) / 2, T(mc::pick(vs)) / 2); U const us[] = {U(3), U(-2), U(7), U(16777217), U(1) / U(3) + U(1)}; U const u = mc::pick(us);
    C const w(T(mc::pick(vs)), T(mc::pick(vs)));
    C nz = z; U nu = u;
    mc::note("  operands %s and %s", show(z).c_str(), show(u).c_str());
    C const times(z.real() * T(u), z.imag() * T(u)), over(z.real() / T(u), z.imag() / T(u));
    agree("multiplies", numeric::multiplies(z, u), times); agree("multiplies", numeric::multiplies(nz, nu), times);
    agree("divides", numeric::divides(z, u), over); agree("divides", numeric::divides(nz, nu), over); agree("fdiv", numeric::fdiv(z, u), over);
    agree("plus", numeric::plus(z, w), C(z.real() + w.real(), z.imag() + w.imag()));
    agree("minus", numeric::minus(z, w), C(z.real() - w.real(), z.imag() - w.imag()));
    agree("multiplies", numeric::multiplies(z, w), z * w);
    agree("unary_minus", numeric::unary_minus(z), C(-z.real(), -z.imag()));
    mc::check_eq("equal_to", numeric::equal_to(z, w), z.real() == w.real() && z.imag() == w.imag());
    C x = z; agree_at("plus_assign", &numeric::plus_assign(x, w), &x); agree("plus_assign", x, C(z.real() + w.real(), z.imag() + w.imag()));
    agree("zero", numeric::zero<C>::value, C(0, 0)); agree("as_zero", numeric::as_zero(z), C(0, 0));
    mc::step();
}
} // namespace
MC_REGISTER
{
    mc::add_config("valarrays: double", valarray_valarray<double>); mc::add_config("valarrays: int", valarray_valarray<int>); mc::add_config("valarrays: float", valarray_valarray<float>);
    mc::add_config("valarrays: int + double", valarrays_mixed<int, double>); mc::add_config("valarrays: double + float", valarrays_mixed<double, float>); mc::add_config("valarrays: short + long", valarrays_mixed<short, long>);
    mc::add_config("valarray and scalar: double, int", valarray_scalar<double, int>); mc::add_config("valarray and scalar: int, double", valarray_scalar<int, double>); mc::add_config("valarray and scalar: int, std::size_t", valarray_scalar<int, std::size_t>); mc::add_config("valarray and scalar: float, int", valarray_scalar<float, int>); mc::add_config("valarray and scalar: float, double", valarray_scalar<float, double>); mc::add_config("valarray and scalar: short, long", valarray_scalar<short, long>); mc::add_config("valarray and scalar: double, std::size_t", valarray_scalar<double, std::size_t>);
    mc::add_config("in place: valarray<double>", valarray_histories<double>, 2); mc::add_config("in place: valarray<int>", valarray_histories<int>, 2); mc::add_config("in place: valarray<float>", valarray_histories<float>, 2);
    mc::add_config("wide valarrays: double", wide_valarrays<double>, 2); mc::add_config("wide valarrays: int", wide_valarrays<int>, 2); mc::add_config("wide valarrays: float", wide_valarrays<float>, 2); mc::add_config("complex<double>, long double", complex_scalar<double, long double>); mc::add_config("complex<float>, long", complex_scalar<float, long>); mc::add_config("complex<long double>, double", complex_scalar<long double, double>);
    mc::add_config("complex<double>, int", complex_scalar<double, int>); mc::add_config("complex<double>, float", complex_scalar<double, float>); mc::add_config("complex<double>, std::size_t", complex_scalar<double, std::size_t>); mc::add_config("complex<float>, int", complex_scalar<float, int>); mc::add_config("complex<float>, double", complex_scalar<float, double>); mc::add_config("complex<double>, double", complex_scalar<double, double>);
}
