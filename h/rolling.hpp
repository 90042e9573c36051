#pragma once
#include "ref.hpp"
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
using namespace boost::accumulators;

// the last N samples, nothing else
template<class S> struct window {
    std::size_t N; std::deque<S> q; std::size_t pushed = 0; ref::ld peak = 0;
    explicit window(std::size_t n) : N(n) {}
    void push(S x) { q.push_back(x); if (q.size() > N) q.pop_front(); ++pushed; peak = std::max(peak, std::fabs((ref::ld)x)); }
    ref::ld sum(int k = 1) const { ref::ld s = 0; for (S x : q) s += ref::ipow(x, k); return s; }
    ref::ld mean() const { return sum() / q.size(); }
    ref::ld var() const { ref::ld m = mean(), s = 0; for (S x : q) s += (x - m) * (x - m); return s / (q.size() - 1); }
    // rounding budget of running updates: grows with the history, scales with the largest power seen
    ref::ld tol(int k) const { return ref::eps_of<S>() * 8 * (pushed + 4) * (ref::ipow(peak, k) + 1e-600L) * (N + 2); }
};
