// Stateless explicit exploration of the real library code.
//
// A harness body calls mc::choose(n) wherever the environment has a choice (which operation
// comes next, which sample, which window size, whether to look at the result now ...).  The
// explorer runs the body once per *complete vector of choices* and enumerates all of them in
// lexicographic order (depth first search by re-execution), so that a finished run is an
// exhaustive enumeration of the bounded space of histories.  In each execution the body compares
// the library with a reference model; a mismatch throws mc::violation.
#ifndef VERIF_EXPLORE_HPP
#define VERIF_EXPLORE_HPP
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace mc {

struct violation { std::string msg; };
struct skip_subtree {};

int  choose(int n);                       // one of 0..n-1, every value is explored
template<class T, std::size_t N> T const &pick(T const (&a)[N]) { return a[choose((int)N)]; }
template<class T> T const &pick(std::vector<T> const &a) { return a[choose((int)a.size())]; }

bool thorough();                          // tier
inline int depth(int quick, int deep) { return thorough() ? deep : quick; }

void note(char const *fmt, ...) __attribute__((format(printf, 1, 2)));   // trace text (replay only)
bool verbose();
void hash_bytes(void const *p, std::size_t n);
void step();                              // one transition finished: the state hash is recorded
[[noreturn]] void fail(char const *fmt, ...) __attribute__((format(printf, 1, 2)));

// A defect of the library that known_findings.txt lists under this id was seen (the driver
// turns an id that is not listed into a violation).
void known(char const *id);

// An observation that the reference could not decide exactly (counted in the evidence).
void saturated();

// numbers as text, for messages
std::string str(double v);
std::string str(long double v);
inline std::string str(float v) { return str((double)v); }
inline std::string str(int v) { return std::to_string(v); }
inline std::string str(unsigned v) { return std::to_string(v); }
inline std::string str(long v) { return std::to_string(v); }
inline std::string str(unsigned long v) { return std::to_string(v); }
inline std::string str(long long v) { return std::to_string(v); }
inline std::string str(unsigned long long v) { return std::to_string(v); }
inline std::string str(bool v) { return v ? "true" : "false"; }
inline std::string str(short v) { return std::to_string((int)v); }
inline std::string str(unsigned short v) { return std::to_string((int)v); }
inline std::string str(signed char v) { return std::to_string((int)v); }
inline std::string str(std::string const &v) { return v; }

template<class T> void observe(T const &v)
{
    static_assert(std::is_arithmetic<T>::value, "");
    if (std::is_floating_point<T>::value) {
        // observations only feed the state count: rounded, so that it does not depend on noise
        double d = (double)v;
        if (d != d) d = -1.25e300;
        float f = (float)d;
        hash_bytes(&f, sizeof f);
    } else {
        long long l = (long long)v;
        hash_bytes(&l, sizeof l);
    }
}

template<class A, class B> void check_eq(char const *what, A const &got, B const &want)
{
    observe(got);
    if (verbose()) note("    %s = %s", what, str(got).c_str());
    if (!(got == want)) fail("%s: got %s, expected %s", what, str(got).c_str(), str(want).c_str());
}

// |got - want| <= tol, where NaN matches NaN and infinities match exactly.
template<class A> void check_near(char const *what, A const &got_, long double want, long double tol)
{
    observe(got_);
    if (verbose()) note("    %s = %s (model %s)", what, str(got_).c_str(), str(want).c_str());
    long double got = (long double)got_;
    if (want != want) { if (got == got) fail("%s: got %s, expected NaN", what, str(got_).c_str()); return; }
    if (std::isinf(want) || std::isinf(got)) {
        if (got != want) fail("%s: got %s, expected %s", what, str(got_).c_str(), str(want).c_str());
        return;
    }
    if (!(std::fabs(got - want) <= tol))
        fail("%s: got %s, expected %s (tolerance %s)", what, str(got_).c_str(), str(want).c_str(), str((double)tol).c_str());
}

inline void check_true(char const *what, bool ok)
{
    observe(ok);
    if (!ok) fail("%s", what);
}

// relative tolerance for a quantity of this magnitude
inline long double rel(long double scale, long double eps = 1e-10L) { return eps * (1.0L + std::fabs(scale)); }

// An object built in a deliberately dirty buffer: a member the constructor forgets keeps garbage.
template<class T> struct fresh {
    alignas(T) unsigned char buf[sizeof(T)];
    T *p = nullptr;
    fresh() { std::memset(buf, 0xCB, sizeof buf); }
    template<class... A> T &make(A const &... a)
    {
        reset();
        std::memset(buf, 0xCB, sizeof buf);
        asm volatile("" : : "r"(buf) : "memory");
        p = ::new (static_cast<void *>(buf)) T(a...);
        return *p;
    }
    void reset() { if (p) { p->~T(); p = nullptr; } }
    ~fresh() { reset(); }
    fresh(fresh const &) = delete;
    fresh &operator=(fresh const &) = delete;
    T &operator*() { return *p; }
    T *operator->() { return p; }
};

// name: unique; parts: number of parallel jobs the space is split into
void add_config(std::string const &name, std::function<void()> body, int parts = 1);
struct registrar {
    registrar(std::string const &name, std::function<void()> body, int parts = 1) { add_config(name, std::move(body), parts); }
    explicit registrar(void (*f)()) { f(); }
};

} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// MC_REGISTER { ... mc::add_config(...) ... }
#define MC_REGISTER static void MC_CAT(mc_reg_fn_, __LINE__)(); \
    static mc::registrar MC_CAT(mc_reg_, __LINE__)(&MC_CAT(mc_reg_fn_, __LINE__)); \
    static void MC_CAT(mc_reg_fn_, __LINE__)()
#endif
