#include "ints.hpp"
#include <archon/core/integer.hpp>
#include <archon/core/math.hpp>
#include <cmath>
using namespace archon;

namespace {

using NB = Types<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char8_t, char16_t, char32_t>;

template<class T> int width() { return std::numeric_limits<T>::digits + std::numeric_limits<T>::is_signed; }

I isqrt(I v)
{
    I r = 0;
    for (I b = I(1) << 40; b; b >>= 1)
        if ((r + b) * (r + b) <= v) r += b;
    return r;
}

template<class T> void sqrt_one(mc::Ctx& x, T v, I e)
{
    T g = core::int_sqrt(v);
    x.eval();
    if (__builtin_expect(I(g) != e, 0)) x.fail(mc::str("int_sqrt<", Name<T>::v, ">(", istr(I(v)), ") = ", istr(I(g)), ", expected ", istr(e)));
}

mc::Scenario s1("sqrt", 32, [](mc::Ctx& x) {
    int a = x.choose(NB::n), part = x.choose(8);
    x.shard_point();
    NB::select(a, [&]<class T>() {
        MC_TRACE(x, Name<T>::v, " part ", part);
        int d = std::numeric_limits<T>::digits;
        if (part == 0) for (T v : values<T>(true)) if (I(v) >= 0) sqrt_one(x, v, isqrt(I(v)));
        if (d <= 16) { if (part == 0) for (I v = 0; v <= hi<T>(); ++v) sqrt_one(x, T(v), isqrt(v)); return; }
        // around all perfect squares (of a dense set of roots for 64 bits)
        I top = isqrt(hi<T>());
        auto around = [&](I k) {
            for (int e = -2; e <= 2; ++e) { I v = k * k + e; if (v < 0 || v > hi<T>()) continue; sqrt_one(x, T(v), e < 0 ? (k * k + e >= (k - 1) * (k - 1) ? k - 1 : isqrt(v)) : (e <= 2 * k ? k : isqrt(v))); }
        };
        if (d <= 32) { for (I k = part; k <= top; k += 8) around(k); }
        else {
            I n = x.thorough ? 4000000 : 100000;
            for (I k = part; k < n; k += 8) { around(k); if (top >= k) around(top - k); }
            for (int b = 16; b <= 32; ++b) for (I e = -500; e <= 500; ++e) { I k = (I(1) << b) + e * 8 + part; if (k <= top) around(k); }
        }
        mc::heartbeat();
    });
});

// Complete 32-bit range
mc::Scenario s1b("sqrt_all_32bit", 256, [](mc::Ctx& x) {
    int part = x.choose(256);
    x.shard_point();
    unsigned long b = (unsigned long)(part) << 24;
    unsigned long r = (unsigned long)(isqrt(I(b)));
    for (unsigned long v = b; v < b + (1 << 24); ++v) {
        if ((r + 1) * (r + 1) <= v) ++r;
        sqrt_one<unsigned>(x, unsigned(v), I(r));
        if (v < (1u << 31)) sqrt_one<int>(x, int(v), I(r));
        if ((v & 0xFFFFF) == 0) mc::heartbeat();
    }
    MC_TRACE(x, "sqrt of all 32-bit values with upper byte ", part);
}, true);

mc::Scenario s2("bits_digits", 32, [](mc::Ctx& x) {
    int a = x.choose(NB::n);
    x.shard_point();
    NB::select(a, [&]<class T>() {
        MC_TRACE(x, Name<T>::v);
        int d = std::numeric_limits<T>::digits;
        auto msd = [](I v, I base) { if (v < 0) v = -v; int n = -1; while (v) { v /= base; ++n; } return n; };
        std::vector<int> bases;
        for (int b = 2; b <= 40; ++b) bases.push_back(b);
        for (int b : { 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 1000000, 2147483646, 2147483647 }) bases.push_back(b);
        for (T v : values<T>(true)) {
            I w = I(v);
            int msb = -1;
            if (w < 0) msb = d; else for (I q = w; q; q >>= 1) ++msb;
            bool pow2 = w > 0 && (w & (w - 1)) == 0;
            x.eval();
            MC_CHECK(x, core::int_find_msb_pos(v) == msb, Name<T>::v, " ", istr(w), " msb pos ", core::int_find_msb_pos(v));
            MC_CHECK(x, core::int_is_power_of_two(v) == pow2, Name<T>::v, " ", istr(w));
            MC_CHECK(x, core::int_is_even(v) == !(w & 1) && core::int_is_odd(v) == bool(w & 1), Name<T>::v, " ", istr(w));
            MC_CHECK(x, core::is_zero(v) == (w == 0) && core::is_negative(v) == (w < 0) && core::int_is_min(v) == (w == lo<T>()) && core::int_is_max(v) == (w == hi<T>()), Name<T>::v, " ", istr(w));
            MC_CHECK(x, I(core::promote(v)) == w && I(core::promote_strongly(v)) == w, Name<T>::v, " ", istr(w));
            MC_CHECK(x, core::to_unsigned(v) == std::make_unsigned_t<T>(v), istr(w));
            { using P = decltype(+v); if (!(std::numeric_limits<P>::is_signed && w == lo<P>())) { auto n = core::int_neg(v); MC_CHECK(x, n == P(-(unsigned __int128)w), istr(w)); } }
            for (int b : bases) {
                int m = msd(w, b);
                MC_CHECK(x, core::int_find_msd_pos(v, b) == m && core::int_num_digits(v, b) == m + 1, Name<T>::v, " ", istr(w), " base ", b, ": ", core::int_find_msd_pos(v, b));
                x.eval();
            }
            x.outcome(mc::mix(msb, msd(w, 10)));
        }
        for (int b : bases) {
            int m = 1 + std::max(msd(lo<T>(), b), msd(hi<T>(), b));
            MC_CHECK(x, core::int_max_digits<T>(b) == m, "int_max_digits<", Name<T>::v, ">(", b, ") = ", core::int_max_digits<T>(b), " expected ", m);
        }
        for (int n = -3; n <= 140; ++n) {
            int k = std::min(std::max(n, 0), d);
            MC_CHECK(x, I(core::int_mask<T>(n)) == (I(1) << k) - 1, "int_mask<", Name<T>::v, ">(", n, ")");
            for (T v : values<T>(false)) {
                if (n < 0 || I(v) < 0) continue;
                T r = v; core::int_logic_shift_right(r, n);
                MC_CHECK(x, I(r) == (n >= 64 ? I(0) : I(v) >> n), "logic_shift_right<", Name<T>::v, ">(", istr(I(v)), ", ", n, ") = ", istr(I(r)));
                if constexpr (!std::numeric_limits<T>::is_signed) {
                    T l = v; core::int_logic_shift_left(l, n);
                    I e = n >= d ? I(0) : I(T((unsigned __int128)(I(v)) << n));
                    MC_CHECK(x, I(l) == e, "logic_shift_left<", Name<T>::v, ">(", istr(I(v)), ", ", n, ") = ", istr(I(l)));
                }
                x.eval(2);
            }
        }
    });
});

mc::Scenario s3("division", 64, [](mc::Ctx& x) {
    int a = x.choose(NB::n), b = x.choose(NB::n);
    x.shard_point();
    NB::select(a, [&]<class T>() { NB::select(b, [&]<class U>() {
        MC_TRACE(x, Name<T>::v, " by ", Name<U>::v);
        for (T p : values<T>(x.thorough)) for (U q : values<U>(false)) {
            I v = I(p), w = I(q);
            if (w == 0) continue;
            x.eval();
            { I e = v - floordiv(v, w) * w; U g = core::int_periodic_mod(p, q); if (I(g) != e) x.fail(mc::str("int_periodic_mod<", Name<T>::v, ",", Name<U>::v, ">(", istr(v), ", ", istr(w), ") = ", istr(I(g)), " expected ", istr(e)));
              U h = core::periodic_mod(p, q); MC_CHECK(x, h == g, istr(v), " ", istr(w)); }
            if (v >= 0 && w > 0) {
                T g = core::int_div_round_up(p, q);
                MC_CHECK(x, I(g) == (v + w - 1) / w, "int_div_round_up<", Name<T>::v, ",", Name<U>::v, ">(", istr(v), ", ", istr(w), ") = ", istr(I(g)));
                T h = core::int_div_round_half_down(p, q);
                I e = (2 * v - w + 2 * w - 1) / (2 * w); // ceil(v/w - 1/2)
                if (2 * v - w < 0) e = 0;
                MC_CHECK(x, I(h) == e, "int_div_round_half_down<", Name<T>::v, ",", Name<U>::v, ">(", istr(v), ", ", istr(w), ") = ", istr(I(h)), " expected ", istr(e));
            }
            if constexpr (std::is_same_v<T, U>) {
                using P = decltype(+p);
                if (std::numeric_limits<P>::is_signed && v == lo<P>() && w == -1) continue;
                auto r = core::int_divmod(p, q);
                MC_CHECK(x, r.quot == T(v / w) && r.rem == T(v % w), "int_divmod<", Name<T>::v, ">(", istr(v), ", ", istr(w), ")");
            }
        }
        mc::heartbeat();
    }); });
});

// Floating-point periodic modulo: exact for dyadic rationals
template<class F> void fmod_all(mc::Ctx& x)
{
    for (int i = -400; i <= 400; ++i) for (int j = -40; j <= 40; ++j) {
        if (j == 0) continue;
        F a = F(i) / 8, b = F(j) / 8, e = F(i - int(floordiv(i, j)) * j) / 8;
        F g = core::periodic_mod(a, b);
        x.eval();
        MC_CHECK(x, g == e, "periodic_mod(", a, ", ", b, ") = ", g, " expected ", e);
    }
    // tiny negative arguments: result stays inside [0, b)
    F vals[] = { std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::min(), std::numeric_limits<F>::epsilon(), F(1), F(0.1), F(1) / 3, F(360), std::numeric_limits<F>::max() };
    for (F p : vals) for (F q : vals) for (int s = 0; s < 4; ++s) {
        F a = s & 1 ? -p : p, b = s & 2 ? -q : q, g = core::periodic_mod(a, b);
        x.eval();
        bool ok = b > 0 ? (g >= 0 && g < b) : (g <= 0 && g > b);
        MC_CHECK(x, ok, "periodic_mod(", a, ", ", b, ") = ", g);
    }
}
mc::Scenario s4("float_periodic_mod", 1, [](mc::Ctx& x) {
    switch (x.choose(3)) { case 0: fmod_all<float>(x); break; case 1: fmod_all<double>(x); break; case 2: fmod_all<long double>(x); break; }
});

} // namespace
