#include "ints.hpp"
#include <cmath>
#include <bit>
#include <archon/core/float.hpp>
using namespace archon;

namespace {

// sign of (f - i), exact; 2 for NaN
template<class F> int cmp(F f, I i)
{
    if (std::isnan(f)) return 2;
    if (f >= F(73786976294838206464.0)) return 1; // 2^66
    if (f <= -F(73786976294838206464.0)) return -1;
    I t = I(f); // truncation
    if (t != i) return t < i ? -1 : 1;
    F r = f - F(t); // exact: |f| < 2^66 and t shares the exponent range
    return r < 0 ? -1 : r > 0 ? 1 : 0;
}

template<class F> const std::vector<F>& floats(bool thorough)
{
    static std::vector<F> v[2];
    auto& r = v[thorough];
    if (r.empty()) {
        std::set<F> s;
        auto around = [&](F c) {
            F u = c, d = c;
            s.insert(c);
            for (int k = 0; k < (thorough ? 6 : 3); ++k) { u = std::nextafter(u, std::numeric_limits<F>::infinity()); d = std::nextafter(d, -std::numeric_limits<F>::infinity()); s.insert(u); s.insert(d); }
        };
        auto both = [&](F c) { around(c); around(-c); };
        for (int k = -3; k <= 68; ++k) {
            F p = std::ldexp(F(1), k);
            for (F e : { F(0), F(-2), F(-1.5), F(-1), F(-0.75), F(-0.5), F(-0.25), F(0.25), F(0.5), F(0.75), F(1), F(1.5), F(2) }) both(p + e);
        }
        for (int k = -40; k <= 40; ++k) both(F(k) / 2);
        both(std::numeric_limits<F>::max()); both(std::numeric_limits<F>::min()); both(std::numeric_limits<F>::denorm_min()); both(F(1e30)); both(F(12345678.9)); both(F(3e9)); both(F(1e10));
        r.assign(s.begin(), s.end());
        r.push_back(F(-0.0)); r.push_back(std::numeric_limits<F>::infinity()); r.push_back(-std::numeric_limits<F>::infinity()); r.push_back(std::numeric_limits<F>::quiet_NaN()); r.push_back(-std::numeric_limits<F>::quiet_NaN());
    }
    return r;
}
template<class F> std::string fs(F f) { char b[80]; std::snprintf(b, sizeof b, "%.22Lg", (long double)f); return b; }

template<class F, class T> void conv(mc::Ctx& x, F f)
{
    int cl = cmp(f, lo<T>()), ch = cmp(f, hi<T>());
    bool rep = cl != 2 && cl >= 0 && ch <= 0;
    T e = rep ? T(I(f)) : T(1);
    T a = T(1), b = T(1), c = T(1);
    bool g = core::try_float_to_int(f, a);
    int threw = 0, threw2 = 0;
    try { core::float_to_int(f, b); } catch (std::overflow_error&) { threw = 1; }
    try { c = core::float_to_int<T>(f); } catch (std::overflow_error&) { threw2 = 1; }
    T cla = core::clamped_float_to_int<T>(f);
    T ec = cl == 2 ? T(0) : rep ? e : cl < 0 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max();
    x.eval();
    if (__builtin_expect(g != rep || a != e || threw == int(rep) || b != e || threw2 == int(rep) || c != e || cla != ec, 0))
        x.fail(mc::str("conversion of ", fs(f), " to ", Name<T>::v, ": try ", g, " -> ", istr(I(a)), ", throwing ", threw, " -> ", istr(I(b)), ", clamped ", istr(I(cla)), "; expected ", rep, " ", istr(I(e)), " clamped ", istr(I(ec))));
    if (rep) { T d = core::float_to_int_a<T>(f); MC_CHECK(x, d == e, "float_to_int_a ", fs(f)); }
}

template<class F, class T> void comp(mc::Ctx& x, F f, T i)
{
    int c = cmp(f, I(i));
    x.eval();
    bool ok = core::float_equal_int(f, i) == (c == 0) && core::float_less_int(f, i) == (c == -1) && core::float_greater_int(f, i) == (c == 1) &&
        core::float_less_equal_int(f, i) == (c == 0 || c == -1) && core::float_greater_equal_int(f, i) == (c == 0 || c == 1);
    if (__builtin_expect(!ok, 0))
        x.fail(mc::str("comparison of ", fs(f), " with ", Name<T>::v, " ", istr(I(i)), ": == ", core::float_equal_int(f, i), " < ", core::float_less_int(f, i), " > ", core::float_greater_int(f, i), " <= ", core::float_less_equal_int(f, i), " >= ", core::float_greater_equal_int(f, i)));
}

template<class F, class T> void limits(mc::Ctx& x)
{
    auto inf = std::numeric_limits<F>::infinity();
    auto below = [&](F v) { return std::nextafter(v, -inf); };
    auto above = [&](F v) { return std::nextafter(v, inf); };
    F mn = core::min_float_for_int<F, T>(), mx = core::max_float_for_int<F, T>();
    MC_CHECK(x, cmp(mn, lo<T>()) >= 0 && cmp(below(mn), lo<T>()) < 0, Name<T>::v, " min ", fs(mn));
    MC_CHECK(x, cmp(mx, hi<T>()) <= 0 && cmp(above(mx), hi<T>()) > 0, Name<T>::v, " max ", fs(mx));
    for (T i : values<T>(true)) {
        x.eval();
        if (I(i) >= 0) { F m = core::max_float_not_above_nonneg_int<F>(i); MC_CHECK(x, cmp(m, I(i)) <= 0 && cmp(above(m), I(i)) > 0, "max_float_not_above ", istr(I(i)), " ", fs(m)); }
        if (I(i) <= 0) { F m = core::min_float_not_below_nonpos_int<F>(i); MC_CHECK(x, cmp(m, I(i)) >= 0 && cmp(below(m), I(i)) < 0, "min_float_not_below ", istr(I(i)), " ", fs(m)); }
    }
}

template<class F> void all(mc::Ctx& x)
{
    int t = x.choose(AllTypes::n);
    x.shard_point();
    AllTypes::select(t, [&]<class T>() {
        MC_TRACE(x, "float type of ", sizeof(F), " bytes, ", Name<T>::v, ", ", floats<F>(x.thorough).size(), " floats");
        limits<F, T>(x);
        for (F f : floats<F>(x.thorough)) {
            conv<F, T>(x, f);
            for (T i : values<T>(x.thorough && sizeof(T) == 1)) comp(x, f, i);
            x.outcome(mc::hash_bytes(&f, sizeof(F) > 8 ? 10 : sizeof(F)));
        }
        // floats around every boundary value of the integer type
        for (T i : values<T>(x.thorough)) {
            F c = F(i);
            for (int k = -3; k <= 3; ++k) {
                F f = c;
                for (int n = 0; n < std::abs(k); ++n) f = std::nextafter(f, k < 0 ? -std::numeric_limits<F>::infinity() : std::numeric_limits<F>::infinity());
                conv<F, T>(x, f);
                comp(x, f, i);
                for (T j : { T(I(i) - 1), T(I(i) + 1) }) comp(x, f, j);
                for (F h : { F(0.5), F(-0.5), F(1), F(-1) }) { conv<F, T>(x, f + h); comp(x, F(f + h), i); }
            }
        }
        mc::heartbeat();
    });
}
mc::Scenario s1("float", 16, [](mc::Ctx& x) { all<float>(x); });
mc::Scenario s2("double", 16, [](mc::Ctx& x) { all<double>(x); });
mc::Scenario s3("long_double", 16, [](mc::Ctx& x) { all<long double>(x); });

// every float value
mc::Scenario s4("all_floats", 256, [](mc::Ctx& x) {
    int part = x.choose(256);
    x.shard_point();
    for (unsigned v = 0; v < (1u << 24); ++v) {
        float f = std::bit_cast<float>((unsigned(part) << 24) | v);
        conv<float, signed char>(x, f); conv<float, unsigned char>(x, f); conv<float, int>(x, f); conv<float, unsigned>(x, f); conv<float, long>(x, f); conv<float, unsigned long>(x, f);
        if ((v & 0xFFFF) == 0) mc::heartbeat();
    }
    MC_TRACE(x, "floats with upper byte ", part);
}, true);

} // namespace
