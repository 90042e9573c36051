#include "c24v.hpp"
namespace {
template<class L, class R> void vector_vector()
{
    int const n = size_();
    typedef std::vector<L> A; typedef std::vector<R> B;
    A const a = array_of<A>(n, dom3<L>()); B const b = array_of<B>(n, dom2<R>());
    mc::note("  operands %s and %s", show(a).c_str(), show(b).c_str());
    all_ways<o_plus>(a, b, lift<o_plus, A>::vv(a, b));
    all_ways<o_minus>(a, b, lift<o_minus, A>::vv(a, b));
    all_ways<o_multiplies>(a, b, lift<o_multiplies, A>::vv(a, b));
    all_ways<o_divides>(a, b, lift<o_divides, A>::vv(a, b));
    { using namespace boost::numeric::operators;
      agree("a + b", a + b, lift<o_plus, A>::vv(a, b)); agree("a - b", a - b, lift<o_minus, A>::vv(a, b));
      agree("a * b", a * b, lift<o_multiplies, A>::vv(a, b)); agree("a / b", a / b, lift<o_divides, A>::vv(a, b)); }
    std::vector<decltype(-L())> r(n); for (int i = 0; i < n; ++i) r[i] = -a[i];
    A na = a; agree("unary_minus", numeric::unary_minus(a), r); agree("unary_minus", numeric::unary_minus(na), r);
    // the matrix of all products, whatever the two sizes
    int const nc = mc::choose(5); B const c = nc < 3 ? array_of<B>(nc, dom2<R>()) : wide<B>(nc);
    auto const m = numeric::outer_product(a, c);
    if (m.size1() != a.size() || m.size2() != c.size()) mc::fail("outer_product: %zu x %zu", (std::size_t)m.size1(), (std::size_t)m.size2());
    for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < c.size(); ++j) agree("outer_product", m(i, j), L(a[i]) * R(c[j]));
    mc::step();
}
template<class L, class R> void vector_scalar()
{
    int const n = size_();
    typedef std::vector<L> A;
    A const a = array_of<A>(n, dom3<L>()); R const b = dom2<R>()[mc::choose(2)];
    mc::note("  operands %s and %s", show(a).c_str(), show(b).c_str());
    all_ways<o_multiplies>(a, b, lift<o_multiplies, A>::vs(a, b));
    all_ways<o_multiplies>(b, a, lift<o_multiplies, A>::sv(b, a));
    all_ways<o_divides>(a, b, lift<o_divides, A>::vs(a, b));
    all_ways<o_fdiv>(a, b, lift<o_fdiv, A>::vs(a, b));
    promote_one<R>(a);
    limits_of(a);
    mc::step();
}
// many elements
template<class L, class R> void wide_vectors()
{
    int const n = wide_size(); int const shift = mc::choose(4);
    typedef std::vector<L> A; typedef std::vector<R> B;
    A const a = wide<A>(n, shift);
    if (mc::choose(2)) {
        A x = a, m = a; A const c = wide<A>(n, mc::choose(4));
        for (int k = 0; k < 2; ++k) {
            int const op = mc::choose(3);
            if (op == 0) { numeric::plus_assign(x, c); for (int j = 0; j < n; ++j) m[j] += c[j]; }
            else extreme(x, m, c, op == 1);
            agree("the object", x, m);
            mc::step();
        }
        return;
    }
    B const b = wide<B>(n, mc::choose(4), true); R const s = b[mc::choose(3)];
    all_ways<o_plus>(a, b, lift<o_plus, A>::vv(a, b));
    all_ways<o_minus>(a, b, lift<o_minus, A>::vv(a, b));
    all_ways<o_multiplies>(a, b, lift<o_multiplies, A>::vv(a, b));
    all_ways<o_divides>(a, b, lift<o_divides, A>::vv(a, b));
    all_ways<o_multiplies>(a, s, lift<o_multiplies, A>::vs(a, s));
    all_ways<o_multiplies>(s, a, lift<o_multiplies, A>::sv(s, a));
    all_ways<o_divides>(a, s, lift<o_divides, A>::vs(a, s));
    all_ways<o_fdiv>(a, s, lift<o_fdiv, A>::vs(a, s));
    std::vector<decltype(-L())> r(n); for (int i = 0; i < n; ++i) r[i] = -a[i];
    agree("unary_minus", numeric::unary_minus(a), r);
    promote_one<R>(a); limits_of(a);
    B const d = wide<B>(wide_size(), 1);
    auto const p = numeric::outer_product(a, d);
    if (p.size1() != a.size() || p.size2() != d.size()) mc::fail("outer_product: %zu x %zu", (std::size_t)p.size1(), (std::size_t)p.size2());
    for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < d.size(); ++j) agree("outer_product", p(i, j), L(a[i]) * R(d[j]));
}
template<class T> void vector_histories()
{
    typedef std::vector<T> V;
    int const n = mc::choose(mc::depth(3, 4));
    V x = array_of<V>(n, dom2<T>()), m = x;
    for (int i = 0, depth = mc::depth(3, 4); i < depth; ++i) {
        int const op = mc::choose(4);
        V const b = array_of<V>(n, i ? dom2<T>() : dom3<T>());
        mc::note("  op %d with %s", op, show(b).c_str());
        V bb = b;
        switch (op) {
            case 0: agree_at("assign", &numeric::assign(x, bb), &x); m = b; break;
            case 1: if (mc::choose(2)) agree_at("plus_assign", &numeric::plus_assign(x, b), &x); else agree_at("plus_assign", &numeric::plus_assign(x, bb), &x); for (int j = 0; j < n; ++j) m[j] += b[j]; break;
            case 2: extreme(x, m, b, true); break;
            default: extreme(x, m, b, false);
        }
        agree("the object", x, m);
        if (!same(bb, b)) mc::fail("an operation changes its right operand");
        mc::step();
    }
    // the object with itself
    if (n && mc::choose(2)) { numeric::plus_assign(x, x); for (auto &e : m) e += e; agree("the object added to itself", x, m); }
}
// vectors of vectors
void nested()
{
    typedef std::vector<double> V; typedef std::vector<V> W;
    int const n = mc::choose(3);
    W a(n), b(n), sum(n), diff(n), prod(n), half(n), neg(n);
    for (int i = 0; i < n; ++i) {
        int const k = mc::choose(3);
        a[i] = array_of<V>(k, dom2<double>()); b[i] = array_of<V>(k, dom3<double>());
        for (int j = 0; j < k; ++j) { sum[i].push_back(a[i][j] + b[i][j]); diff[i].push_back(a[i][j] - b[i][j]); prod[i].push_back(a[i][j] * b[i][j]); half[i].push_back(a[i][j] / 2); neg[i].push_back(-a[i][j]); }
    }
    W const ca = a, cb = b;
    agree("plus", numeric::plus(ca, cb), sum); agree("minus", numeric::minus(a, b), diff); agree("multiplies", numeric::multiplies(ca, cb), prod);
    agree("divides", numeric::divides(ca, 2.), half); agree("fdiv", numeric::fdiv(ca, 2.), half); agree("unary_minus", numeric::unary_minus(ca), neg);
    W x = a; numeric::plus_assign(x, cb); agree("plus_assign", x, sum);
    mc::step();
}
template<class L, class R> void two(std::string const &n) { mc::add_config("vectors: " + n, vector_vector<L, R>); }
template<class L, class R> void mixed(std::string const &n) { mc::add_config("vector and scalar: " + n, vector_scalar<L, R>); }
} // namespace
MC_REGISTER
{
    two<double, double>("double, double"); two<int, int>("int, int"); two<float, float>("float, float"); two<int, double>("int, double"); two<double, int>("double, int"); two<short, short>("short, short"); two<float, double>("float, double"); two<long, int>("long, int");
    mixed<double, double>("double, double"); mixed<int, int>("int, int"); mixed<float, float>("float, float"); mixed<int, double>("int, double"); mixed<double, int>("double, int"); mixed<short, long>("short, long"); mixed<float, double>("float, double"); mixed<int, std::size_t>("int, std::size_t"); mixed<float, int>("float, int"); mixed<unsigned, std::size_t>("unsigned, std::size_t");
    mc::add_config("in place: vector<double>", vector_histories<double>, 2); mc::add_config("in place: vector<int>", vector_histories<int>, 2); mc::add_config("in place: vector<float>", vector_histories<float>, 2);
    mc::add_config("vectors of vectors", nested, 2);
    mc::add_config("wide vectors: double, double", wide_vectors<double, double>, 2); mc::add_config("wide vectors: int, int", wide_vectors<int, int>, 2); mc::add_config("wide vectors: float, double", wide_vectors<float, double>, 2);
}
