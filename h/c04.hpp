#pragma once
// C04: sums/means of covariates and covariances equal their definitions.
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/covariance.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_covariance.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
typedef std::vector<double> vec;

// everything the definitions need, per component
struct cmodel {
    struct e { std::vector<ref::ld> x, y; ref::ld w; };
    std::vector<e> h;
    ref::ld W() const { ref::ld s = 0; for (auto &a : h) s += a.w; return s; }
    ref::ld mx(int i) const { ref::ld s = 0; for (auto &a : h) s += a.w * a.x[i]; return s / W(); }
    ref::ld my(int i) const { ref::ld s = 0; for (auto &a : h) s += a.w * a.y[i]; return s / W(); }
    ref::ld sy(int i) const { ref::ld s = 0; for (auto &a : h) s += a.w * a.y[i]; return s; }
    ref::ld cov(int i, int j) const { ref::ld s = 0, m = mx(i), n = my(j); for (auto &a : h) s += a.w * (a.x[i] - m) * (a.y[j] - n); return s / W(); }
    ref::ld scale() const { ref::ld s = 1; for (auto &a : h) { for (auto v : a.x) s += std::fabs(v); for (auto v : a.y) s += std::fabs(v); } return s; }
    ref::ld t() const { return 1e-12L * scale() * scale(); }
};
inline std::vector<ref::ld> comp(double v) { return {v}; }
inline std::vector<ref::ld> comp(vec const &v) { return std::vector<ref::ld>(v.begin(), v.end()); }
inline std::string txt(double v) { return mc::str(v); }
inline std::string txt(vec const &v) { std::string s = "("; for (double x : v) s += mc::str(x) + " "; return s + ")"; }

inline double at(double v, int, int) { return v; }
inline double at(vec const &v, int i, int j) { return v[i > j ? i : j]; }
// the covariance matrix has one row per component of the covariate, one column per component of the sample
inline double at(boost::numeric::ublas::matrix<double> const &m, int i, int j) { return m(j, i); }
inline void shape(double, int, int) {}
inline void shape(vec const &v, int n, int m) { mc::check_eq("covariance size", v.size(), (std::size_t)(n * m)); }
inline void shape(boost::numeric::ublas::matrix<double> const &c, int n, int m) { mc::check_eq("covariance rows", c.size1(), (std::size_t)m); mc::check_eq("covariance columns", c.size2(), (std::size_t)n); }

template<class R> void check_cov(R const &r, cmodel const &m, int nx, int ny)
{
    shape(r, nx, ny);
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j)
        mc::check_near("covariance", at(r, i, j), m.cov(i, j), m.t());
}
template<class R> void check_vec(char const *w, R const &r, cmodel const &m, int ny, bool mean)
{
    for (int j = 0; j < ny; ++j) mc::check_near(w, at(r, 0, j), mean ? m.my(j) : m.sy(j), m.t());
}

template<class X> std::vector<X> values();
template<> inline std::vector<double> values<double>() { return {0., 2.5, -2.5, 40.}; }
template<> inline std::vector<vec> values<vec>() { return {{0., 1.}, {-2., 3.}, {2., -1.}, {40., 0.}}; }
struct v3 {};
inline std::vector<vec> values3() { return {{1., 0., -1.}, {2., -3., 5.}, {0., 3., -7.}}; }

template<class X, class Y, bool Weighted> void run(std::vector<X> const &xs, std::vector<Y> const &ys, int qd, int td)
{
    typedef typename std::conditional<Weighted, double, void>::type W;
    typedef accumulator_set<X, stats<tag::covariance<Y, tag::covariate1> >, W> cset;
    typedef accumulator_set<X, stats<typename std::conditional<Weighted, tag::weighted_mean_of_variates<Y, tag::covariate1>, tag::mean_of_variates<Y, tag::covariate1> >::type>, W> mset;
    typedef accumulator_set<X, stats<typename std::conditional<!(std::is_same<Y, double>::value && std::is_same<X, double>::value), tag::count, typename std::conditional<Weighted, tag::immediate_weighted_mean_of_variates<Y, tag::covariate1>, tag::immediate_mean_of_variates<Y, tag::covariate1> >::type>::type>, W> iset;
    typedef accumulator_set<X, stats<typename std::conditional<Weighted, tag::weighted_sum_of_variates<Y, tag::covariate1>, tag::sum_of_variates<Y, tag::covariate1> >::type>, W> sset;
    constexpr bool Scalar = (std::is_same<Y, double>::value && std::is_same<X, double>::value);   // the immediate mean is not offered for vectors
    X x0 = xs[0]; Y y0 = ys[0]; 
    // the initial values give the dimensions; they are all zero
    auto zero = [](auto v) { if constexpr (std::is_same<decltype(v), double>::value) return 0.; else return vec(v.size(), 0.); };
    X zx = zero(x0); Y zy = zero(y0);
    mc::fresh<cset> fc; cset &c = fc.make(sample = zx, covariate1 = zy);
    mc::fresh<mset> fm; mset &mm = fm.make(sample = zx, covariate1 = zy);
    mc::fresh<iset> fi; iset &im = fi.make(sample = zx, covariate1 = zy);
    mc::fresh<sset> fs; sset &su = fs.make(sample = zx, covariate1 = zy);
    int nx = (int)comp(x0).size(), ny = (int)comp(y0).size();
    std::vector<double> ws; if (Weighted) ws = {1., 2.5, 0.}; else ws = {1.};
    cmodel m; ref::watch w;
    auto check = [&] {
        mc::check_eq("count", count(c), m.h.size());
        if (m.h.empty()) return;
        check_cov(covariance(c), m, nx, ny);
        if constexpr (Weighted) {
            check_vec("weighted_sum_of_variates", weighted_sum_of_variates(su), m, ny, false);
            check_vec("weighted_mean_of_variates", weighted_mean_of_variates<Y, tag::covariate1>(mm), m, ny, true);
            if constexpr (Scalar) check_vec("immediate_weighted_mean_of_variates", weighted_mean_of_variates<Y, tag::covariate1>(im), m, ny, true);
        } else {
            check_vec("sum_of_variates", sum_of_variates(su), m, ny, false);
            check_vec("mean_of_variates", mean_of_variates<Y, tag::covariate1>(mm), m, ny, true);
            if constexpr (Scalar) check_vec("immediate_mean_of_variates", mean_of_variates<Y, tag::covariate1>(im), m, ny, true);
        }
        auto mx = mean(c);
        for (int i = 0; i < nx; ++i) mc::check_near("mean beside covariance", at(mx, i, 0), m.mx(i), m.t());
    };
    int D = mc::depth(qd, td);
    for (int i = 0; ; ++i) {
        if (w.every) { check(); mc::step(); }
        int k = i < D ? mc::choose((int)(xs.size() * ys.size() * ws.size()) + 1) : 0;
        if (!k) break;
        --k;
        X const &x = xs[k % xs.size()]; Y const &y = ys[(k / xs.size()) % ys.size()]; double wt = ws[k / xs.size() / ys.size()]; if (wt == 0 && m.h.empty()) wt = 0.25;
        mc::note("push %s covariate %s weight %g", txt(x).c_str(), txt(y).c_str(), wt);
        if constexpr (Weighted) { c(x, weight = wt, covariate1 = y); mm(x, covariate1 = y, weight = wt); im(x, weight = wt, covariate1 = y); su(x, weight = wt, covariate1 = y); }
        else { c(x, covariate1 = y); mm(x, covariate1 = y); im(x, covariate1 = y); su(x, covariate1 = y); }
        m.h.push_back({comp(x), comp(y), (ref::ld)wt});
    }
    check(); mc::step();
}

// long histories, other types, other orders of magnitude: the immediate variants against running sums
template<class X, class Y, class W> struct longrun {
    typedef accumulator_set<X, stats<tag::covariance<Y, tag::covariate1> > > cset;
    typedef accumulator_set<X, stats<tag::covariance<Y, tag::covariate2> >, W> wset;
    typedef accumulator_set<X, stats<tag::covariance<Y, tag::covariate1>, tag::mean_of_variates<Y, tag::covariate1>(immediate), tag::mean(immediate) > > lset;
    mc::fresh<cset> a; mc::fresh<wset> b; mc::fresh<lset> c;
    ref::ld n = 0, sx = 0, sy = 0, sxy = 0, w_ = 0, wx = 0, wy = 0, wxy = 0, mag = 0;
    longrun() { a.make(); b.make(); c.make(); }
    void push(X x, Y y, W w)
    {
        (*a)(x, covariate1 = y); (*b)(x, weight = w, covariate2 = y); (*c)(x, covariate1 = y);
        ref::ld const X_ = x, Y_ = y, W_ = w;
        n += 1; sx += X_; sy += Y_; sxy += X_ * Y_; w_ += W_; wx += W_ * X_; wy += W_ * Y_; wxy += W_ * X_ * Y_; mag = std::max(mag, std::max(X_ * X_, Y_ * Y_));
    }
    void check()
    {
        ref::ld const t = 64 * (n + 4) * (ref::eps_of<X>() + ref::eps_of<Y>()) * mag;
        mc::check_near("covariance", covariance(*a), sxy / n - sx / n * (sy / n), t);
        mc::check_near("weighted covariance", weighted_covariance(*b), wxy / w_ - wx / w_ * (wy / w_), t);
        mc::check_near("covariance on immediate means", covariance(*c), sxy / n - sx / n * (sy / n), t);
        mc::check_near("mean_of_variates", mean_of_variates<Y, tag::covariate1>(*c), sy / n, t / (mag > 0 ? std::sqrt(mag) : 1) + 1e-300L);
    }
};
template<class X, class Y, class W> void marathon()
{
    longrun<X, Y, W> s; X const V[] = {(X)1, (X)5}; Y const U[] = {(Y)2, (Y)-3}; X const a = mc::pick(V), b = mc::pick(V); Y const c = mc::pick(U), d = mc::pick(U);
    for (int i = 1, N = mc::depth(70000, 200000); i <= N; ++i) {
        s.push(i % 3 ? a : b, i % 2 ? c : d, (W)(1 + i % 4));
        if (i <= 3 || i % 9973 == 0 || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || ((i - 1) & (i - 2)) == 0 || i == N) { s.check(); mc::step(); }
    }
}
template<class X, class Y, class W> void scales()
{
    static double const F[] = {1, 1e-9, 1e9, 1e60}, V[] = {0, 1, -2}, G[] = {1, 1e-12};
    double const f = std::is_integral<X>::value ? 1 : mc::pick(F), e = std::is_integral<Y>::value ? 1 : mc::pick(F), g = std::is_integral<W>::value ? 1 : mc::pick(G); int const far = mc::choose(2);
    longrun<X, Y, W> s; mc::note("samples scaled by %g, covariates by %g, weights by %g%s", f, e, g, far ? ", far from zero" : "");
    for (int i = 0, D = mc::depth(3, 4); i < D; ++i) {
        X const x = (X)((mc::pick(V) + (far ? 100 : 0)) * f); Y const y = (Y)((mc::pick(V) - (far ? 50 : 0)) * e); W const w = (W)(g * (1 + i % 2));
        mc::note("push %s covariate %s", mc::str(x).c_str(), mc::str(y).c_str());
        s.push(x, y, w); s.check(); mc::step();
    }
}
