// C06: rolling window, count and sum describe exactly the last N samples.
#include "rolling.hpp"

template<class S> struct subjects {
    typedef accumulator_set<S, stats<tag::rolling_window, tag::rolling_count, tag::rolling_sum> > all_set;
    typedef accumulator_set<S, stats<tag::rolling_sum> > sum_set;
    typedef accumulator_set<S, stats<tag::rolling_count> > cnt_set;
    typedef accumulator_set<S, stats<tag::rolling_window> > win_set;
    mc::fresh<all_set> a; mc::fresh<sum_set> b; mc::fresh<cnt_set> c; mc::fresh<win_set> d;
    window<S> m; std::deque<S> gone;
    explicit subjects(int n) : m(n)
    {
        a.make(tag::rolling_window::window_size = n); b.make(tag::rolling_sum::window_size = n);
        c.make(tag::rolling_count::window_size = n); d.make(tag::rolling_window::window_size = n);
    }
    void push(S x) { (*a)(x); (*b)(x); (*c)(x); (*d)(x); gone.clear(); if (m.q.size() == m.N) gone.push_back(m.q.front()); m.push(x); }
    template<class R> void same(char const *what, R const &r, std::deque<S> const &q)
    {
        mc::check_eq(what, (std::size_t)std::distance(r.begin(), r.end()), q.size());
        std::size_t i = 0;
        for (S x : r) { mc::check_eq(what, x, q[i]); ++i; }
        for (auto it = r.end(); it != r.begin() && i; ) { --it; --i; mc::check_eq("window read from its end", (S)*it, q[i]); }
    }
    template<class X> void sum_ok(char const *what, X s)
    {
        if (std::is_integral<S>::value) mc::check_eq(what, s, (S)m.sum()); else mc::check_near(what, s, m.sum(), m.tol(1));
    }
    void check()
    {
        same("rolling_window", rolling_window(*a), m.q);
        same("rolling_window alone", rolling_window(*d), m.q);
        mc::check_eq("rolling_count", rolling_count(*a), m.q.size());
        mc::check_eq("rolling_count alone", rolling_count(*c), m.q.size());
        sum_ok("rolling_sum", rolling_sum(*a));
        sum_ok("rolling_sum alone", rolling_sum(*b));
        // the window of one more element that the running updates are based on
        std::deque<S> plus = gone; plus.insert(plus.end(), m.q.begin(), m.q.end());
        same("rolling_window_plus1", rolling_window_plus1(*a), plus);
    }
};
template<class S> void words()
{
    int n = 1 + mc::choose(mc::depth(4, 5));
    subjects<S> s(n); std::vector<S> A = ref::alphabet<S>::get(); A.resize(5);
    if (mc::thorough()) A.resize(4);
    mc::note("window size %d", n);
    ref::watch w; int D = mc::depth(6, 9);
    for (int i = 0; ; ++i) {
        if (w.every) { s.check(); mc::step(); }
        int c = i < D ? mc::choose((int)A.size() + 1) : 0;
        if (!c) break;
        mc::note("push %s", mc::str(A[c - 1]).c_str());
        s.push(A[c - 1]);
    }
    s.check(); mc::step();
}
// words repeated so that the window wraps many times, for many window sizes
template<class S> void cyclic()
{
    static int const sizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129};
    int n = mc::pick(sizes);
    subjects<S> s(n); std::vector<S> A = ref::alphabet<S>::get();
    int L = 1 + mc::choose(3); std::vector<S> word; for (int i = 0; i < L; ++i) word.push_back(mc::pick(A));
    int N = 3 * n + 40; if (n <= 2) N = mc::depth(300, 3000);
    for (int i = 0; i < N; ++i) {
        // a drifting component makes every element of the window distinguishable
        s.push((S)(word[i % L] + (S)(i % 50)));
        if (i < 12 || i % 7 == 0 || (i >= n - 2 && i <= n + 2) || i == N - 1) { s.check(); mc::step(); }
    }
}
// large windows and very long histories, looked at around the interesting sizes
template<class S> void marathon()
{
    static int const sizes[] = {1, 2, 5, 255, 256, 257, 1000, 65536};
    int const n = mc::pick(sizes), k = 1 + mc::choose(3); subjects<S> s(n);
    int const N = n < 65536 ? mc::depth(66000, 300000) : n + 70;
    for (int i = 1; i <= N; ++i) {
        s.push((S)(i * k % 101));
        bool const p2 = (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || ((i - 1) & (i - 2)) == 0, edge = i >= n - 1 && i <= n + 1;
        if (i == N || edge || (n < 65536 && (p2 || i % 9973 == 0))) { s.check(); mc::step(); }
    }
}
template<class S> void scales()
{
    static double const F[] = {1e-200, 1e-9, 1e9, 1e200}, V[] = {0, 2.5, -2.5};
    int const n = 1 + mc::choose(3); double const f = mc::pick(F); subjects<S> s(n); mc::note("window size %d, scale %g", n, f);
    for (int i = 0, D = mc::depth(5, 7); i < D; ++i) { s.push((S)(mc::pick(V) * f)); s.check(); mc::step(); }
}
// elements that own memory
static void strings()
{
    typedef accumulator_set<std::string, stats<tag::rolling_window, tag::rolling_count> > set;
    int const n = 1 + mc::choose(4); mc::fresh<set> f; set &a = f.make(tag::rolling_window::window_size = n, sample = std::string());
    std::deque<std::string> q; static char const *const V[] = {"", "short", "a string that does not fit into the small buffer"};
    for (int i = 0, D = mc::depth(6, 8); i < D; ++i) {
        std::string x = mc::pick(V); a(x); q.push_back(x); if ((int)q.size() > n) q.pop_front();
        auto r = rolling_window(a); std::size_t k = 0;
        mc::check_eq("rolling_count", rolling_count(a), q.size());
        mc::check_eq("window length", (std::size_t)std::distance(r.begin(), r.end()), q.size());
        for (auto it = r.begin(); it != r.end(); ++it, ++k) if (*it != q[k]) mc::fail("element %zu is '%s', expected '%s'", k, it->c_str(), q[k].c_str());
        mc::step();
    }
}
MC_REGISTER {
    mc::add_config("marathon<int>", marathon<int>, 4);
    mc::add_config("marathon<double>", marathon<double>, 4);
    mc::add_config("scales<double>", scales<double>, 1);
    mc::add_config("strings", strings, 1);
    mc::add_config("words<int>", words<int>, 4);
    mc::add_config("words<double>", words<double>, 4);
    mc::add_config("words<unsigned>", words<unsigned>, 4);
    mc::add_config("words<float>", words<float>, 4);
    mc::add_config("cyclic<int>", cyclic<int>, 4);
    mc::add_config("cyclic<double>", cyclic<double>, 4);
    mc::add_config("cyclic<unsigned>", cyclic<unsigned>, 4);
}
