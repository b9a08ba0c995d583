// C29: relations behind check operations (check/test_context.hpp, check/check_macros.hpp) over mixed types.
// Oracle: exact arithmetic (128-bit integers, scaled dyadic numbers, long double comparison of
// values that long double represents exactly).
#include "mc.hpp"
#include <cmath>
#include <cfloat>
#include <cstdlib>
#include <limits>
#include <list>
#include <locale>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/inexact_compare.hpp>
#include <archon/log.hpp>
#include <archon/check.hpp>
#include <archon/check/test_list.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/reporter.hpp>
#include <archon/check/fail_context.hpp>
using namespace archon;

namespace {

using LD = long double;
static_assert(LDBL_MANT_DIG >= 64); // All integers and floating point values of the tested types are exact

using AllTypes = std::tuple<bool, char, signed char, unsigned char, wchar_t, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double>;
using DistTypes = std::tuple<bool, signed char, unsigned char, short, int, unsigned, long, unsigned long, float, double, long double>;
template<class T> const char* tname();
#define TN(T) template<> const char* tname<T>() { return #T; }
TN(bool) TN(char) TN(signed char) TN(unsigned char) TN(wchar_t) TN(short) TN(unsigned short) TN(int) TN(unsigned) TN(long) TN(unsigned long) TN(long long) TN(unsigned long long) TN(float) TN(double) TN(long double)

template<class T> const std::vector<T>& vals()
{
    static const std::vector<T> v = [] {
        std::vector<T> r;
        auto add = [&](LD x) {
            if constexpr (std::is_integral_v<T>) {
                if (x != std::floor(x) || x < LD(std::numeric_limits<T>::lowest()) || x > LD(std::numeric_limits<T>::max())) return;
            }
            T t = T(x);
            for (T u : r) if (u == t) return;
            r.push_back(t);
        };
        for (LD x : { 0.0L, 1.0L, 2.0L, 3.0L, 0.5L, 1.5L, 1 / 1048576.0L, 1e-30L, 127.0L, 128.0L, 255.0L, 256.0L, 1e30L }) { add(x); add(-x); }
        for (int e : { 24, 31, 32, 53, 62, 63, 64 })
            for (LD d : { -1.0L, 0.0L, 1.0L }) { LD x = std::ldexp(1.0L, e); add(x + d); add(-(x + d)); }
        add(LD(std::numeric_limits<T>::max()));
        add(LD(std::numeric_limits<T>::lowest()));
        if constexpr (std::is_floating_point_v<T>) {
            for (T x : { T(1), std::ldexp(T(1), 63), std::ldexp(T(1), 31) })
                for (T s : { T(1), T(-1) }) { r.push_back(s * std::nextafter(x, T(0))); r.push_back(s * std::nextafter(x, T(4) * x)); }
            r.push_back(std::numeric_limits<T>::infinity());
            r.push_back(-std::numeric_limits<T>::infinity());
            r.push_back(std::numeric_limits<T>::quiet_NaN());
            r.push_back(std::numeric_limits<T>::denorm_min());
        }
        return r;
    }();
    return v;
}
template<class T> const std::vector<T>& few()
{
    static const std::vector<T> v = [] {
        std::vector<T> r;
        auto add = [&](LD x) {
            if constexpr (std::is_integral_v<T>) if (x < LD(std::numeric_limits<T>::lowest()) || x > LD(std::numeric_limits<T>::max()) || x != std::floor(x)) return;
            T t = T(x);
            for (T u : r) if (u == t) return;
            r.push_back(t);
        };
        for (LD x : { 0.0L, 1.0L, 2.0L, 100.0L, 0.5L }) { add(x); add(-x); }
        for (LD x : { LD(std::numeric_limits<T>::max()), LD(std::numeric_limits<T>::lowest()) }) { if (std::is_floating_point_v<T>) continue; add(x); add(x - 1); add(x + 1); }
        for (int e : { 7, 8, 31, 32, 63 }) { add(std::ldexp(1.0L, e)); add(-std::ldexp(1.0L, e)); add(std::ldexp(1.0L, e) - 1); }
        return r;
    }();
    return v;
}

std::string sh(LD x) { std::ostringstream o; o.precision(21); o << x; return o.str(); }

template<class A, class B> void pair(mc::Ctx& x)
{
    using T = check::TestContext;
    for (A a : vals<A>())
        for (B b : vals<B>()) {
            LD p = a, q = b;
            bool eq = p == q, lt = p < q, le = p <= q, gt = p > q, ge = p >= q;
            auto bad = [&](const char* op, bool r) { x.fail(mc::str(op, "(", tname<A>(), " ", sh(p), ", ", tname<B>(), " ", sh(q), ") is ", r)); };
            if (T::equal(a, b) != eq) bad("equal", !eq);
            if (T::less(a, b) != lt) bad("less", !lt);
            if (T::less_equal(a, b) != le) bad("less_equal", !le);
            if (T::greater(a, b) != gt) bad("greater", !gt);
            if (T::greater_equal(a, b) != ge) bad("greater_equal", !ge);
        }
    x.eval(5 * vals<A>().size() * vals<B>().size());
}

using I = __int128;

template<class A, class B, class D> void dist(mc::Ctx& x)
{
    using T = check::TestContext;
    constexpr bool ints = std::is_integral_v<A> && std::is_integral_v<B> && std::is_integral_v<D>;
    std::size_t n = 0;
    for (A a : few<A>())
        for (B b : few<B>())
            for (D d : few<D>()) {
                bool lt, le;
                if constexpr (ints) {
                    I v = I(a) - I(b);
                    if (v < 0) v = -v;
                    lt = v < I(d);
                    le = v <= I(d);
                }
                else {
                    // Only where the floating point arithmetic is exact
                    using F = decltype(a + b + d);
                    if (LD(F(a)) != LD(a) || LD(F(b)) != LD(b) || LD(F(d)) != LD(d)) continue;
                    F v = F(a) - F(b);
                    if (LD(v) + LD(b) != LD(a) || LD(a) - LD(v) != LD(b)) continue;
                    LD w = v < 0 ? -LD(v) : LD(v);
                    lt = w < LD(d);
                    le = w <= LD(d);
                }
                ++n;
                auto bad = [&](const char* op, bool r) { x.fail(mc::str(op, "(", tname<A>(), " ", sh(a), ", ", tname<B>(), " ", sh(b), ", ", tname<D>(), " ", sh(d), ") is ", r)); };
                if (T::dist_less(a, b, d) != lt) bad("dist_less", !lt);
                if (T::dist_less_equal(a, b, d) != le) bad("dist_less_equal", !le);
                if (T::dist_greater(a, b, d) == le) bad("dist_greater", le);
                if (T::dist_greater_equal(a, b, d) == lt) bad("dist_greater_equal", lt);
            }
    x.eval(4 * n);
}

using Fn = void (*)(mc::Ctx&);
template<std::size_t... i> std::vector<Fn> pairs(std::index_sequence<i...>)
{
    constexpr std::size_t n = std::tuple_size_v<AllTypes>;
    return { &pair<std::tuple_element_t<i / n, AllTypes>, std::tuple_element_t<i % n, AllTypes>>... };
}
template<std::size_t... i> std::vector<Fn> dists(std::index_sequence<i...>)
{
    constexpr std::size_t n = std::tuple_size_v<DistTypes>;
    return { &dist<std::tuple_element_t<i / n / n, DistTypes>, std::tuple_element_t<i / n % n, DistTypes>, std::tuple_element_t<i % n, DistTypes>>... };
}
mc::Scenario s_rel("relations", 8, [](mc::Ctx& x) {
    constexpr std::size_t n = std::tuple_size_v<AllTypes>;
    static const auto f = pairs(std::make_index_sequence<n * n>());
    int i = x.choose(int(f.size()));
    x.shard_point();
    f[std::size_t(i)](x);
    x.outcome(std::uint64_t(i));
});
mc::Scenario s_dist("distances", 16, [](mc::Ctx& x) {
    constexpr std::size_t n = std::tuple_size_v<DistTypes>;
    static const auto f = dists(std::make_index_sequence<n * n * n>());
    int i = x.choose(int(f.size()));
    x.shard_point();
    f[std::size_t(i)](x);
    x.outcome(std::uint64_t(i));
});

} // unnamed namespace
