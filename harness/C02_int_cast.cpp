#include "ints.hpp"
#include <archon/core/integer.hpp>
using namespace archon;

namespace {

template<class T> I wrap(I v) // value of type T congruent to v modulo 2^width
{
    int w = std::numeric_limits<T>::digits + std::numeric_limits<T>::is_signed;
    unsigned __int128 m = (unsigned __int128)v & (((unsigned __int128)1 << w) - 1);
    I r = I(m);
    if (std::numeric_limits<T>::is_signed && (m >> (w - 1))) r -= I(1) << w;
    return r;
}
template<class F> I decode_tc(F v) // value represented by v in two's complement
{
    if constexpr (std::numeric_limits<F>::is_signed) return I(v);
    else {
        int w = std::numeric_limits<F>::digits;
        return (I(v) >> (w - 1)) ? I(v) - (I(1) << w) : I(v);
    }
}
// representable in T, where T, if unsigned, holds two's complement
template<class T> bool fits_tc(I v)
{
    int w = std::numeric_limits<T>::digits + std::numeric_limits<T>::is_signed;
    return v >= -(I(1) << (w - 1)) && v <= (I(1) << (w - 1)) - 1;
}

template<class T, class F> void family(mc::Ctx& x, const char* op, F v, bool rep, I expect, I expect_a, bool can, bool tried, T out, T thr, int threw, T a)
{
    const T canary = T(1);
    x.eval();
    if (__builtin_expect(can != rep || tried != rep || threw != int(!rep) || out != (rep ? T(expect) : canary) || (rep && thr != T(expect)) || a != T(expect_a), 0))
        x.fail(mc::str(op, "<", Name<T>::v, ">(", Name<F>::v, " ", istr(I(v)), "): representable ", rep, " value ", istr(expect), "; can ", can, " try ", tried,
                       " -> ", istr(I(out)), "; throwing variant threw ", threw, " -> ", istr(I(thr)), "; unchecked variant ", istr(I(a)), " expected ", istr(expect_a)));
}
template<class F> int throws(F&& f) { try { f(); return 0; } catch (std::overflow_error&) { return 1; } }

#define FAMILY(op, cast, can, tryc, casta, rep, expect, expect_a) do { \
        T out = T(1), thr = T(1); bool t = core::tryc(v, out); int th = throws([&] { thr = core::cast<T>(v); }); \
        family<T, F>(x, op, v, rep, expect, expect_a, core::can<T>(v), t, out, thr, th, core::casta<T>(v)); } while (0)

template<class T, class F> void cast_one(mc::Ctx& x, F v)
{
    FAMILY("int_cast", int_cast, can_int_cast, try_int_cast, int_cast_a, fits<T>(I(v)), I(v), wrap<T>(I(v)));
    { T out = T(1); int th = throws([&] { core::int_cast(v, out); }); MC_CHECK(x, th == int(!fits<T>(I(v))) && out == (th ? T(1) : T(I(v))), "int_cast(from,to) ", istr(I(v))); }
    I c = I(v) < lo<T>() ? lo<T>() : I(v) > hi<T>() ? hi<T>() : I(v);
    T out = T(0);
    core::int_cast_clamp(v, out);
    MC_CHECK(x, I(out) == c, "int_cast_clamp<", Name<T>::v, ">(", Name<F>::v, " ", istr(I(v)), ") gives ", istr(I(out)));
    x.outcome(mc::mix(uint64_t(out), uint64_t(I(v) - I(out))));
}

mc::Scenario s1("cast", 64, [](mc::Ctx& x) {
    int a = x.choose(AllTypes::n), b = x.choose(AllTypes::n);
    x.shard_point();
    AllTypes::select(a, [&]<class T>() { AllTypes::select(b, [&]<class F>() {
        MC_TRACE(x, Name<F>::v, " -> ", Name<T>::v);
        for (F v : values<F>(true)) cast_one<T>(x, v);
        // explicit clamping range
        for (F v : values<F>(false))
            for (T mn : { std::numeric_limits<T>::min(), T(0), T(1), T(std::numeric_limits<T>::max() / 2) })
                for (T mx : { T(1), T(std::numeric_limits<T>::max() / 2), std::numeric_limits<T>::max() }) {
                    if (mn > mx) continue;
                    I c = I(v) < I(mn) ? I(mn) : I(v) > I(mx) ? I(mx) : I(v);
                    T g = core::int_cast_clamp<T>(v, mn, mx);
                    MC_CHECK(x, I(g) == c, "int_cast_clamp(", istr(I(v)), ",", istr(I(mn)), ",", istr(I(mx)), ") gives ", istr(I(g)));
                    x.eval();
                }
    }); });
});

using TcTypes = Types<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, char, wchar_t, char16_t, char32_t>;

template<class T, class F> void tc_one(mc::Ctx& x, F v)
{
    constexpr bool tu = !std::numeric_limits<T>::is_signed, fu = !std::numeric_limits<F>::is_signed;
    I sv = decode_tc(v);
    // to
    {
        bool rep = tu ? fits_tc<T>(I(v)) : fits<T>(I(v));
        FAMILY("cast_to_twos_compl", cast_to_twos_compl, can_cast_to_twos_compl, try_cast_to_twos_compl, cast_to_twos_compl_a, rep, wrap<T>(I(v)), wrap<T>(I(v)));
    }
    // from
    {
        bool rep = fits<T>(sv);
        FAMILY("cast_from_twos_compl", cast_from_twos_compl, can_cast_from_twos_compl, try_cast_from_twos_compl, cast_from_twos_compl_a, rep, sv,
               fu && tu && !rep ? I(core::cast_from_twos_compl_a<T>(v)) /* unspecified */ : fu && !tu ? wrap<T>(sv) : wrap<T>(I(v)));
    }
    // between
    {
        bool rep = tu ? fits_tc<T>(sv) : fits<T>(sv);
        I enc = wrap<T>(sv);
        FAMILY("twos_compl_cast", twos_compl_cast, can_twos_compl_cast, try_twos_compl_cast, twos_compl_cast_a, rep, enc, enc);
    }
}

mc::Scenario s2("twos_compl", 64, [](mc::Ctx& x) {
    int a = x.choose(TcTypes::n), b = x.choose(TcTypes::n);
    x.shard_point();
    TcTypes::select(a, [&]<class T>() { TcTypes::select(b, [&]<class F>() {
        MC_TRACE(x, Name<F>::v, " -> ", Name<T>::v);
        for (F v : values<F>(true)) { tc_one<T>(x, v); x.outcome(mc::mix(a * 16 + b, uint64_t(v))); }
    }); });
});

mc::Scenario s3("sign_extend", 8, [](mc::Ctx& x) {
    using U = Types<unsigned char, unsigned short, unsigned, unsigned long, unsigned long long, char16_t, char32_t>;
    int a = x.choose(U::n);
    x.shard_point();
    U::select(a, [&]<class T>() {
        MC_TRACE(x, Name<T>::v);
        int w = std::numeric_limits<T>::digits;
        for (T v : values<T>(true))
            for (int n = 1; n <= w + 3; ++n) {
                I e;
                if (n >= w) e = I(v);
                else e = ((I(v) >> (n - 1)) & 1) ? I(T((unsigned __int128)(v) | (~(unsigned __int128)0 << n))) : I(v);
                T g = core::twos_compl_sign_extend(v, n);
                MC_CHECK(x, I(g) == e, "sign_extend(", istr(I(v)), ",", n, ") gives ", istr(I(g)));
                x.eval();
            }
    });
});

mc::Scenario s4("compare", 64, [](mc::Ctx& x) {
    int a = x.choose(AllTypes::n), b = x.choose(AllTypes::n);
    x.shard_point();
    AllTypes::select(a, [&]<class A>() { AllTypes::select(b, [&]<class B>() {
        MC_TRACE(x, Name<A>::v, " vs ", Name<B>::v);
        for (A v : values<A>(x.thorough))
            for (B w : values<B>(false)) {
                I p = I(v), q = I(w);
                bool ok = core::int_equal(v, w) == (p == q) && core::int_not_equal(v, w) == (p != q) && core::int_less(v, w) == (p < q) &&
                    core::int_less_equal(v, w) == (p <= q) && core::int_greater(v, w) == (p > q) && core::int_greater_equal(v, w) == (p >= q);
                MC_CHECK(x, ok, "comparison of ", Name<A>::v, " ", istr(p), " with ", Name<B>::v, " ", istr(q));
                x.eval();
            }
        mc::heartbeat();
    }); });
});

} // namespace
