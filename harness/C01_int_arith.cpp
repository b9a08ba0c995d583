#include "ints.hpp"
#include <archon/core/integer.hpp>
using namespace archon;

namespace {

template<class L, class R> void judge(mc::Ctx& x, const char* op, L l, R r, Big exact, bool got, L after, int thrown, L after_thrown, int can)
{
    bool rep = !exact.ovf && fits<L>(exact.v);
    if (__builtin_expect(got != rep || after != (rep ? L(exact.v) : l) || thrown != int(!rep) || after_thrown != (rep ? L(exact.v) : l) || (can >= 0 && can != int(rep)), 0)) {
        x.fail(mc::str(op, "<", Name<L>::v, ",", Name<R>::v, ">(", istr(I(l)), ", ", istr(I(r)), "): exact ", exact.ovf ? "beyond 128 bits" : istr(exact.v),
                       "; try returned ", got, " target ", istr(I(after)), "; throwing variant threw ", thrown, " target ", istr(I(after_thrown)), "; can ", can));
    }
}

template<class F> int throws(F&& f) { try { f(); return 0; } catch (std::overflow_error&) { return 1; } }

template<class L, class R> void one(mc::Ctx& x, int op, L l, R r)
{
    L a = l, b = l;
    x.eval();
    switch (op) {
        case 0: { bool g = core::try_int_add(a, r); int t = throws([&] { core::int_add(b, r); });
            judge(x, "int_add", l, r, { I(l) + I(r) }, g, a, t, b, core::can_int_add(l, r)); break; }
        case 1: { bool g = core::try_int_sub(a, r); int t = throws([&] { core::int_sub(b, r); });
            judge(x, "int_sub", l, r, { I(l) - I(r) }, g, a, t, b, core::can_int_sub(l, r)); break; }
        case 2: { bool g = core::try_int_mul(a, r); int t = throws([&] { core::int_mul(b, r); });
            judge(x, "int_mul", l, r, b_mul({ I(l) }, { I(r) }), g, a, t, b, core::can_int_mul(l, r)); break; }
        case 3: { // exponentiation
            Big e{1};
            if (I(r) >= 0) {
                I n = I(r);
                if (I(l) == 0) e.v = (n == 0);
                else if (I(l) == 1) e.v = 1;
                else if (I(l) == -1) e.v = (n & 1) ? -1 : 1;
                else for (I i = 0; i < n && !e.ovf; ++i) e = b_mul(e, { I(l) });
            }
            else {
                if (I(l) == 0) e.ovf = true;
                else if (I(l) == 1) e.v = 1;
                else if (I(l) == -1) e.v = (I(r) & 1) ? -1 : 1;
                else e.v = 0;
            }
            bool g = core::try_int_pow(a, r); int t = throws([&] { core::int_pow(b, r); });
            judge(x, "int_pow", l, r, e, g, a, t, b, -1); break; }
    }
    x.outcome(mc::mix(mc::mix(uint64_t(op) * 77 + std::is_signed_v<L> * 2 + std::is_signed_v<R>, uint64_t(a)), uint64_t(a == l)));
}

template<class L, class R> void pairs(mc::Ctx& x, int op)
{
    auto& lv = values<L>(x.thorough);
    auto& rv = values<R>(x.thorough && sizeof(L) == 1); // 16-bit x 16-bit: complete only against 8-bit
    MC_TRACE(x, "types ", Name<L>::v, " ", Name<R>::v, " op ", op, " values ", lv.size(), "x", rv.size());
    for (L l : lv) {
        for (R r : rv) one(x, op, l, r);
        // Values of R adjacent to the boundary where the result stops being representable
        for (I lim : { lo<L>(), hi<L>() }) {
            I c = op == 0 ? lim - I(l) : op == 1 ? I(l) - lim : op == 2 && I(l) != 0 ? lim / I(l) : 0;
            for (int e = -2; e <= 2; ++e)
                if (fits<R>(c + e)) one(x, op, l, R(c + e));
        }
        mc::heartbeat();
    }
}

mc::Scenario s1("arith", 64, [](mc::Ctx& x) {
    int op = x.choose(4), a = x.choose(StdTypes::n), b = x.choose(StdTypes::n);
    x.shard_point();
    StdTypes::select(a, [&]<class L>() { StdTypes::select(b, [&]<class R>() { pairs<L, R>(x, op); }); });
});

// Less common types as right-hand and left-hand side
using Odd = Types<char, wchar_t, char16_t, char32_t, long long, unsigned long long>;
using Few = Types<signed char, unsigned, long>;
mc::Scenario s2("arith_other_types", 64, [](mc::Ctx& x) {
    int op = x.choose(4), a = x.choose(Odd::n), b = x.choose(Few::n), sw = x.choose(2);
    x.shard_point();
    Odd::select(a, [&]<class L>() { Few::select(b, [&]<class R>() { if (sw) pairs<R, L>(x, op); else pairs<L, R>(x, op); }); });
});

mc::Scenario s3("bool_operand", 8, [](mc::Ctx& x) {
    int op = x.choose(4), a = x.choose(StdTypes::n);
    x.shard_point();
    StdTypes::select(a, [&]<class L>() { for (L l : values<L>(x.thorough)) for (bool r : { false, true }) one(x, op, l, r); });
});

mc::Scenario s4("shift", 16, [](mc::Ctx& x) {
    int a = x.choose(AllTypes::n);
    x.shard_point();
    AllTypes::select(a, [&]<class T>() {
        if constexpr (!std::is_same_v<T, bool>) {
            int w = std::numeric_limits<T>::digits;
            for (T v : values<T>(true)) {
                if (I(v) < 0) continue;
                for (int i = 0; i <= 140; ++i) {
                    Big e{I(v)};
                    for (int j = 0; j < i && !e.ovf && e.v; ++j) e = b_mul(e, {2});
                    T t1 = v, t2 = v;
                    bool g = core::try_int_arith_shift_left(t1, i);
                    int t = throws([&] { core::int_arith_shift_left(t2, i); });
                    judge(x, "int_arith_shift_left", v, i, e, g, t1, t, t2, -1);
                    x.eval();
                }
                T t = v;
                bool g = core::try_int_arith_shift_left(t, std::numeric_limits<int>::max());
                MC_CHECK(x, g == (v == 0) && t == v, istr(I(v)));
                (void)w;
            }
            MC_TRACE(x, "shift ", Name<T>::v);
        }
    });
});

} // namespace
