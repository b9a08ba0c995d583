#pragma once
#include <mc.hpp>
#include <algorithm>
#include <limits>
#include <set>
#include <tuple>
#include <vector>
using I = __int128;

template<class T> struct Name;
#define NM(T) template<> struct Name<T> { static constexpr const char* v = #T; };
NM(bool) NM(char) NM(signed char) NM(unsigned char) NM(short) NM(unsigned short) NM(int) NM(unsigned) NM(long) NM(unsigned long)
NM(long long) NM(unsigned long long) NM(wchar_t) NM(char8_t) NM(char16_t) NM(char32_t)
#undef NM

inline std::string istr(I v)
{
    if (v == 0) return "0";
    bool n = v < 0;
    unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string s;
    while (u) { s += char('0' + int(u % 10)); u /= 10; }
    if (n) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}

template<class T> constexpr I lo() { return I(std::numeric_limits<T>::min()); }
template<class T> constexpr I hi() { return I(std::numeric_limits<T>::max()); }
template<class T> bool fits(I v) { return v >= lo<T>() && v <= hi<T>(); }

// Boundary values of integer type: around 0, both limits, all powers of two, square roots of limits; complete for <= 8 bits.
template<class T> const std::vector<T>& values(bool thorough = false)
{
    static std::vector<T> v[2];
    auto& r = v[thorough];
    if (r.empty()) {
        std::set<I> s;
        auto add = [&](I x) { if (fits<T>(x)) s.insert(x); };
        int w = std::numeric_limits<T>::digits;
        if (w <= 8 || (thorough && w <= 16)) {
            for (I x = lo<T>(); x <= hi<T>(); ++x) s.insert(x);
        }
        else {
            int d = thorough ? 3 : 2;
            for (int k = 0; k <= w; ++k)
                for (int e = -d; e <= d; ++e) { add((I(1) << k) + e); add(-(I(1) << k) + e); }
            for (int e = 0; e <= 4; ++e) { add(lo<T>() + e); add(hi<T>() - e); }
            for (int e = -20; e <= 20; ++e) add(e);
            // square and cube roots of limits
            for (I lim : { hi<T>(), -lo<T>() }) {
                I q = 1;
                while ((q + 1) * (q + 1) <= lim) { if (q > 100000) { I st = 1; while ((q + 2*st) * (q + 2*st) <= lim) st *= 2; q += st; } else ++q; }
                for (int e = -2; e <= 2; ++e) { add(q + e); add(-q + e); }
            }
            for (int b : { 3, 5, 7, 10 }) { I p = 1; while (p <= hi<T>() / b) { p *= b; for (int e = -1; e <= 1; ++e) { add(p + e); add(-p + e); } } }
        }
        for (I x : s) r.push_back(T(x));
        // simplest first
        std::stable_sort(r.begin(), r.end(), [](T a, T b) { I x = I(a) < 0 ? -I(a) : I(a), y = I(b) < 0 ? -I(b) : I(b); return x < y; });
    }
    return r;
}

// exact arithmetic with overflow indication (beyond 128 bits)
struct Big { I v = 0; bool ovf = false; };
inline Big b_mul(Big a, Big b)
{
    Big r;
    if ((!a.ovf && a.v == 0) || (!b.ovf && b.v == 0)) return r;
    r.ovf = a.ovf || b.ovf || __builtin_mul_overflow(a.v, b.v, &r.v);
    return r;
}
// floor division
inline I floordiv(I a, I b) { I q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) --q; return q; }

// call f.template operator()<T>() for type number i
template<class... T> struct Types {
    static constexpr int n = sizeof...(T);
    template<class F> static void select(int i, F&& f)
    {
        int j = 0;
        ((j++ == i ? (f.template operator()<T>(), 0) : 0), ...);
    }
};
using AllTypes = Types<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char8_t, char16_t, char32_t>;
using StdTypes = Types<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long>;
