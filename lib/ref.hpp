// Shared pieces of the harnesses: alphabets of samples, the enumeration of histories, and plain
// definitions of the statistics in long double over the full recorded history.
#pragma once
#include "explore.hpp"
#include <algorithm>
#include <deque>
#include <vector>
namespace ref {
typedef long double ld;

template<class S, class = void> struct alphabet;
template<class S> struct alphabet<S, typename std::enable_if<std::is_floating_point<S>::value>::type> {
    // zero, ties, sign changes, a fraction that is exact, a fraction that is not, a large value
    static std::vector<S> get() { return {(S)0, (S)1.5, (S)-1.5, (S)0.1, (S)-40, (S)1024}; }
};
template<class S> struct alphabet<S, typename std::enable_if<std::is_integral<S>::value && std::is_signed<S>::value>::type> {
    static std::vector<S> get() { return {(S)0, (S)1, (S)-1, (S)7, (S)-30, (S)100}; }
};
template<class S> struct alphabet<S, typename std::enable_if<std::is_integral<S>::value && !std::is_signed<S>::value>::type> {
    static std::vector<S> get() { return {(S)0, (S)1, (S)2, (S)7, (S)30, (S)100}; }
};

struct xw { ld x, w, v; };
typedef std::vector<xw> hist;

inline ld sum_w(hist const &h) { ld s = 0; for (auto &e : h) s += e.w; return s; }
inline ld sum_x(hist const &h) { ld s = 0; for (auto &e : h) s += e.x; return s; }
inline ld sum_wx(hist const &h) { ld s = 0; for (auto &e : h) s += e.w * e.x; return s; }
inline ld ipow(ld b, int n) { ld r = 1; while (n-- > 0) r *= b; return r; }
// weighted raw moment, and the same with absolute values (the scale of the rounding errors)
inline ld moment(hist const &h, int n) { ld s = 0; for (auto &e : h) s += e.w * ipow(e.x, n); return s / sum_w(h); }
inline ld absmoment(hist const &h, int n) { ld s = 0; for (auto &e : h) s += std::fabs(e.w) * std::fabs(ipow(e.x, n)); return s / std::fabs(sum_w(h)); }
inline ld central(hist const &h, int n) { ld m = moment(h, 1), s = 0; for (auto &e : h) s += e.w * ipow(e.x - m, n); return s / sum_w(h); }
inline bool constant(hist const &h) { for (auto &e : h) if (e.x != h[0].x) return false; return true; }

// How a bounded history ends and when the results are looked at.
struct watch {
    bool every;
    watch() : every(mc::choose(2) == 0) { mc::note("results are looked at %s", every ? "after every step" : "only at the end"); }
};
} // namespace ref


namespace ref {
// running power sums: the definitions of mean, moments, variance, skewness and kurtosis of a
// weighted sample, evaluated in long double
struct sums {
    ld W = 0, p[9] = {0}, q[9] = {0}; std::size_t n = 0; bool varied = false; ld first = 0;
    void push(ld x, ld w = 1)
    {
        ld y = 1;
        for (int k = 0; k <= 8; ++k) { p[k] += w * y; q[k] += std::fabs(w * y); y *= x; }
        if (n == 0) first = x; else if (x != first) varied = true;
        W += w; ++n;
    }
    ld mom(int k) const { return p[k] / W; }
    ld amom(int k) const { return q[k] / W; }
    ld mean() const { return mom(1); }
    ld var() const { ld m = mean(); return mom(2) - m * m; }
    ld c3() const { ld m = mean(); return mom(3) - 3 * mom(2) * m + 2 * m * m * m; }
    ld c4() const { ld m = mean(); return mom(4) - 4 * mom(3) * m + 6 * mom(2) * m * m - 3 * m * m * m * m; }
    ld skew() const { ld v = var(); return c3() / (v * std::sqrt(v)); }
    ld kurt() const { ld v = var(); return c4() / (v * v) - 3; }
    // rounding budget: eps of the arithmetic times the magnitude of what is added up
    ld tol(int k, ld eps) const { return eps * 32 * (n + 4) * (amom(k) + 1e-600L); }
    ld skew_tol(ld eps) const { ld v = var(), s = std::sqrt(v); ld dv = tol(2, eps) / v; return 8 * tol(3, eps) / (v * s) + (std::fabs(skew()) + 1 + amom(3) / (v * s)) * dv * 4; }
    ld kurt_tol(ld eps) const { ld v = var(); ld dv = tol(2, eps) / v; return 16 * tol(4, eps) / (v * v) + (std::fabs(kurt()) + 3 + amom(4) / (v * v)) * dv * 8; }
    bool shape_defined(ld eps) const { return varied && var() > 1e3L * tol(2, eps); }
};
template<class S> inline ld eps_of() { return std::is_same<S, float>::value ? (ld)std::numeric_limits<float>::epsilon() : (ld)std::numeric_limits<double>::epsilon(); }
} // namespace ref
