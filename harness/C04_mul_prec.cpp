#include "ints.hpp"
#include <sstream>
#include <archon/core/integer.hpp>
#include <archon/core/mul_prec_int.hpp>
#include <archon/core/super_int.hpp>
using namespace archon;
using U = unsigned __int128;

namespace {

template<int W> constexpr U mask() { return W >= 128 ? ~U(0) : (U(1) << W) - 1; }

// Reference: value of W-bit two's complement (or unsigned) integer, stored modulo 2**W
template<class M> struct Ref {
    static constexpr int w = M::width;
    static constexpr bool s = M::is_signed;
    static constexpr int pw = core::int_width<typename M::part_type>();
    static M make(U u)
    {
        typename M::parts_type p = {};
        for (int i = 0; i < M::num_parts; ++i) p[i] = typename M::part_type(u >> (i * pw));
        return M(p);
    }
    static U get(M m)
    {
        auto p = m.get_parts();
        U u = 0;
        for (int i = 0; i < M::num_parts; ++i) u |= U(p[i]) << (i * pw);
        return u;
    }
    static bool neg(U u) { return s && ((u >> (w - 1)) & 1); }
    static U abs(U u) { return neg(u) ? -u & mask<w>() : u; }
    static std::string str(U u) { std::string r; U a = abs(u); if (!a) r = "0"; while (a) { r += char('0' + int(a % 10)); a /= 10; } if (neg(u)) r += "-"; std::reverse(r.begin(), r.end()); return r; }
    static bool less(U a, U b) { if (neg(a) != neg(b)) return neg(a); return a < b; }
};

template<class M> std::string nm() { return mc::str("MulPrecInt<", core::int_width<typename M::part_type>(), "-bit,", M::num_parts, ",", M::is_signed, ">"); }

template<class M> void bad(mc::Ctx& x, const char* op, U a, U b, U got, U want)
{
    using R = Ref<M>;
    x.fail(mc::str(nm<M>(), ": ", R::str(a), " ", op, " ", R::str(b), " = ", R::str(got), ", expected ", R::str(want)));
}
#define EXPECT(op, got, want) do { U g_ = (got), w_ = (want); if (__builtin_expect(g_ != w_, 0)) bad<M>(x, op, a, b, g_, w_); } while (0)

template<class M> void div_one(mc::Ctx& x, U a, U b, M ma, M mb)
{
    using R = Ref<M>;
    if (b == 0) return;
    U q = R::abs(a) / R::abs(b), r = R::abs(a) % R::abs(b);
    if (R::neg(a) != R::neg(b)) q = -q;
    if (R::neg(a)) r = -r;
    q &= mask<R::w>(), r &= mask<R::w>();
    auto d = ma.divmod(mb);
    EXPECT("divmod.quot", R::get(d.quot), q);
    EXPECT("divmod.rem", R::get(d.rem), r);
    x.eval();
}

template<class M> void ring(mc::Ctx& x, U a, U b, M ma, M mb)
{
    using R = Ref<M>;
    constexpr U m = mask<R::w>();
    EXPECT("+", R::get(ma + mb), (a + b) & m);
    EXPECT("-", R::get(ma - mb), (a - b) & m);
    EXPECT("*", R::get(ma * mb), (a * b) & m);
    bool l = R::less(a, b);
    bool ok = (ma == mb) == (a == b) && (ma != mb) == (a != b) && (ma < mb) == l && (ma >= mb) == !l && (ma > mb) == R::less(b, a) && (ma <= mb) == !R::less(b, a);
    if (__builtin_expect(!ok, 0)) bad<M>(x, "compare", a, b, 0, 0);
    x.eval();
}

template<class M> void full(mc::Ctx& x, U a, U b, M ma, M mb)
{
    using R = Ref<M>;
    ring(x, a, b, ma, mb);
    div_one(x, a, b, ma, mb);
    EXPECT("&", R::get(ma & mb), a & b);
    EXPECT("|", R::get(ma | mb), a | b);
    EXPECT("^", R::get(ma ^ mb), a ^ b);
    M c;
    c = ma; EXPECT("+=", R::get(c += mb), R::get(ma + mb)); c = ma; EXPECT("-=", R::get(c -= mb), R::get(ma - mb)); c = ma; EXPECT("*=", R::get(c *= mb), R::get(ma * mb));
    c = ma; EXPECT("&=", R::get(c &= mb), a & b); c = ma; EXPECT("|=", R::get(c |= mb), a | b); c = ma; EXPECT("^=", R::get(c ^= mb), a ^ b);
    if (b) { auto d = ma.divmod(mb); EXPECT("/", R::get(ma / mb), R::get(d.quot)); EXPECT("%", R::get(ma % mb), R::get(d.rem));
        c = ma; EXPECT("/=", R::get(c /= mb), R::get(d.quot)); c = ma; EXPECT("%=", R::get(c %= mb), R::get(d.rem)); }
}

template<class M> void unary(mc::Ctx& x, U a)
{
    using R = Ref<M>;
    constexpr U m = mask<R::w>();
    M ma = R::make(a);
    U b = 0;
    EXPECT("roundtrip", R::get(ma), a);
    EXPECT("unary -", R::get(-ma), -a & m);
    EXPECT("unary +", R::get(+ma), a);
    EXPECT("~", R::get(~ma), ~a & m);
    EXPECT("is_nonneg", U(ma.is_nonneg()), U(!R::neg(a)));
    for (int i = 0; i < R::w; ++i) {
        b = i;
        EXPECT("<<", R::get(ma << i), (a << i) & m);
        if (R::neg(a)) continue; // right shift of negative value is unspecified by the integer concept
        U sr = a >> i;
        EXPECT(">>", R::get(ma >> i), sr);
        M c = ma; EXPECT("<<=", R::get(c <<= i), (a << i) & m); c = ma; EXPECT(">>=", R::get(c >>= i), sr);
    }
    int msb = -1;
    for (U q = a; q; q >>= 1) ++msb;
    b = 0;
    EXPECT("find_msb_pos", U(ma.find_msb_pos()), U(msb));
    EXPECT("generic find_msb_pos", U(core::int_find_msb_pos(ma)), U(msb));
    // casts to and from fundamental types
    StdTypes::select(0, [&]<class T0>() {});
    for (int t = 0; t < StdTypes::n; ++t)
        StdTypes::select(t, [&]<class T>() {
            U e = a; // sign extend
            if (R::neg(a) && R::w < 128) e |= ~U(0) << R::w;
            if (T(ma) != T(e)) bad<M>(x, "cast to", a, t, U(T(ma)), U(T(e)));
            T v = T(e);
            U e2 = U(I(v)) & m;
            if (R::get(M(v)) != e2) bad<M>(x, "cast from", a, t, R::get(M(v)), e2);
            // checked cast
            bool rep = R::neg(a) ? (std::numeric_limits<T>::is_signed && R::abs(a) <= U(-lo<T>())) : a <= U(hi<T>());
            T out = T(1);
            bool g = core::try_int_cast(ma, out);
            if (g != rep || out != (rep ? T(e) : T(1))) bad<M>(x, "try_int_cast to", a, t, U(out), U(T(e)));
        });
    x.eval();
}

template<class M> void text(mc::Ctx& x, U a)
{
    using R = Ref<M>;
    M ma = R::make(a);
    std::stringstream ss;
    ss << ma;
    MC_CHECK(x, ss.str() == R::str(a), nm<M>(), " formatted ", ss.str(), " expected ", R::str(a));
    M mb;
    ss >> mb;
    MC_CHECK(x, bool(ss) && mb == ma, nm<M>(), " reparsed ", R::str(R::get(mb)), " expected ", R::str(a));
    x.outcome(mc::hash_str(ss.str()));
}

// All values whose digits (half parts) come from an alphabet that contains the classes relevant for carries, borrows and quotient estimates
std::vector<U> alphabet(int w, int dw, int classes)
{
    U b = U(1) << dw;
    std::vector<U> d;
    if (classes >= int(b) && dw < 16) for (U i = 0; i < b; ++i) d.push_back(i);
    else {
        U all[] = { 0, b - 1, b / 2, 1, b / 2 - 1, b / 2 + 1, b - 2, 2, 3, b / 4, b - 3 };
        for (int i = 0; i < classes && i < 11; ++i) d.push_back(all[i]);
        std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end());
    }
    std::vector<U> r = { 0 };
    for (int p = 0; p < w; p += dw) {
        std::vector<U> n;
        for (U c : d) for (U v : r) n.push_back(v | (c << p));
        r = std::move(n);
    }
    return r;
}

template<class M> void run(mc::Ctx& x, int classes_a, int classes_b)
{
    using R = Ref<M>;
    int dw = R::pw / 2;
    auto va = alphabet(R::w, dw, classes_a), vb = alphabet(R::w, dw, classes_b);
    int parts = 64, part = x.choose(parts);
    x.shard_point();
    MC_TRACE(x, nm<M>(), " ", va.size(), "x", vb.size(), " part ", part);
    for (std::size_t i = part; i < va.size(); i += parts) {
        U a = va[i];
        M ma = R::make(a);
        unary<M>(x, a);
        for (std::size_t j = 0; j < vb.size(); ++j) {
            U b = vb[j];
            M mb = R::make(b);
            ring(x, a, b, ma, mb);
            div_one(x, a, b, ma, mb);
            if ((i ^ j) % 64 == 5 || vb.size() < 300) full(x, a, b, ma, mb);
        }
        if (i % 16 == part % 16) text<M>(x, a);
        mc::heartbeat();
        x.outcome(mc::mix(uint64_t(a), uint64_t(a >> 64)));
    }
}

#define SC(name, M, ca, cb, ta, tb) mc::Scenario sc_##name(#name, 64, [](mc::Ctx& x) { run<M>(x, x.thorough ? ta : ca, x.thorough ? tb : cb); });
using u8 = unsigned char; using u16 = unsigned short; using u32 = unsigned; using u64 = unsigned long;
using A1 = core::MulPrecInt<u8,1,false>; using A2 = core::MulPrecInt<u8,1,true>;
using B1 = core::MulPrecInt<u8,2,false>; using B2 = core::MulPrecInt<u8,2,true>;
using C1 = core::MulPrecInt<u8,3,false>; using C2 = core::MulPrecInt<u8,3,true>;
using D1 = core::MulPrecInt<u8,4,false>; using D2 = core::MulPrecInt<u8,4,true>;
using E1 = core::MulPrecInt<u16,2,false>; using E2 = core::MulPrecInt<u16,3,true>;
using F1 = core::MulPrecInt<u32,2,false>; using F2 = core::MulPrecInt<u32,3,true>; using F3 = core::MulPrecInt<u32,3,false>;
using G1 = core::MulPrecInt<u64,1,true>; using G2 = core::MulPrecInt<u64,2,false>; using G3 = core::MulPrecInt<u64,2,true>;
SC(u8x1, A1, 16, 16, 16, 16) SC(s8x1, A2, 16, 16, 16, 16)
SC(u8x2, B1, 16, 4, 16, 16) SC(s8x2, B2, 16, 4, 16, 10)
SC(u8x3, C1, 4, 3, 5, 5) SC(s8x3, C2, 4, 3, 5, 4)
SC(u8x4, D1, 3, 2, 3, 3) SC(s8x4, D2, 3, 2, 3, 3)
SC(u16x2, E1, 7, 5, 11, 7) SC(s16x3, E2, 4, 3, 5, 4)
SC(u32x2, F1, 7, 5, 11, 7) SC(s32x3, F2, 4, 3, 5, 4) SC(u32x3, F3, 4, 3, 5, 4)
SC(s64x1, G1, 11, 11, 11, 11) SC(u64x2, G2, 6, 4, 9, 7) SC(s64x2, G3, 6, 4, 9, 7)

// ---- SuperInt: 65 bits
using S = core::SuperInt;
I sval(S s) { return I(s.get_value()) - (s.get_sign_bit() ? (I(1) << 64) : I(0)); }
S smake(I v) { return S(std::uintmax_t(v), v < 0); }
I swrap(I v) { U u = U(v) & mask<65>(); return (u >> 64) & 1 ? I(u) - (I(1) << 65) : I(u); }

mc::Scenario s_super("super_int", 64, [](mc::Ctx& x) {
    static std::vector<I> vals = [] {
        std::set<I> s;
        I mn = -(I(1) << 64), mx = (I(1) << 64) - 1;
        auto add = [&](I v) { if (v >= mn && v <= mx) s.insert(v); };
        for (int k = 0; k <= 64; ++k) for (int e = -3; e <= 3; ++e) { add((I(1) << k) + e); add(-(I(1) << k) + e); }
        for (int e = 0; e < 20; ++e) { add(e); add(-e); add(mn + e); add(mx - e); }
        for (I p = 1; p <= mx / 3; p *= 3) { add(p); add(-p); add(mx / p); add(mn / p); add(mn / p - 1); add(mx / p + 1); }
        for (I q = 4294967290; q < 4294967302; ++q) { add(q); add(-q); add(q * q); add(-q * q); add(q * (q + 1)); }
        return std::vector<I>(s.begin(), s.end());
    }();
    int part = x.choose(64);
    x.shard_point();
    MC_TRACE(x, "SuperInt ", vals.size(), " values");
    I mn = -(I(1) << 64), mx = (I(1) << 64) - 1;
    for (std::size_t i = part; i < vals.size(); i += 64) {
        I a = vals[i];
        S sa = smake(a);
        MC_CHECK(x, sval(sa) == a && sval(+sa) == a && sval(-sa) == swrap(-a) && sval(~sa) == swrap(-1 - a), istr(a));
        for (int t = 0; t < AllTypes::n; ++t) AllTypes::select(t, [&]<class T>() {
            bool rep = fits<T>(a);
            T out = T(1);
            MC_CHECK(x, sa.cast_has_overflow<T>() == !rep, Name<T>::v, " ", istr(a));
            bool g = sa.get_as(out);
            MC_CHECK(x, g == rep && out == (rep ? T(a) : T(1)), "get_as<", Name<T>::v, "> ", istr(a), " gives ", g, " ", istr(I(out)));
            T v = T(a);
            MC_CHECK(x, sval(S(v)) == I(v), "from ", Name<T>::v, " ", istr(I(v)));
        });
        std::ostringstream o;
        o << sa;
        MC_CHECK(x, o.str() == istr(a), "formatted ", o.str(), " expected ", istr(a));
        for (int n = 0; n < 64; ++n) MC_CHECK(x, sval(sa << n) == swrap(I(U(a) << n)) , istr(a), " << ", n);
        if (a >= 0) for (int n = 0; n < 64; ++n) MC_CHECK(x, sval(sa >> n) == swrap(I((U(a) & mask<65>()) >> n)), istr(a), " >> ", n);
        for (I b : vals) {
            S sb = smake(b);
            bool ok = sval(sa + sb) == swrap(a + b) && sval(sa - sb) == swrap(a - b) && sval(sa * sb) == swrap(I(U(a) * U(b))) &&
                sval(sa & sb) == (a & b) && sval(sa | sb) == (a | b) && sval(sa ^ sb) == (a ^ b) &&
                (sa == sb) == (a == b) && (sa != sb) == (a != b) && (sa < sb) == (a < b) && (sa <= sb) == (a <= b) && (sa > sb) == (a > b) && (sa >= sb) == (a >= b);
            MC_CHECK(x, ok, "SuperInt ", istr(a), " op ", istr(b));
            S c = sa; bool ov = c.add_with_overflow_detect(sb); bool eo = a + b < mn || a + b > mx;
            MC_CHECK(x, ov == eo && (ov ? true : sval(c) == a + b), "add_with_overflow_detect ", istr(a), " ", istr(b), " ", ov);
            c = sa; ov = c.subtract_with_overflow_detect(sb); eo = a - b < mn || a - b > mx;
            MC_CHECK(x, ov == eo && (ov ? true : sval(c) == a - b), "subtract_with_overflow_detect ", istr(a), " ", istr(b), " ", ov);
            Big p = b_mul({ a }, { b });
            c = sa; ov = c.multiply_with_overflow_detect(sb); eo = p.ovf || p.v < mn || p.v > mx;
            MC_CHECK(x, ov == eo && (ov ? true : sval(c) == p.v), "multiply_with_overflow_detect ", istr(a), " ", istr(b), " ", ov);
            if (b != 0) {
                MC_CHECK(x, sval(sa / sb) == swrap(a / b) && sval(sa % sb) == a % b, "SuperInt ", istr(a), " divided by ", istr(b), ": ", istr(sval(sa / sb)), " ", istr(sval(sa % sb)));
                c = sa; ov = c.divide_with_overflow_detect(sb); eo = a == mn && b == -1;
                MC_CHECK(x, ov == eo && (ov ? true : sval(c) == a / b), "divide_with_overflow_detect ", istr(a), " ", istr(b), " ", ov);
            }
            x.eval();
        }
        mc::heartbeat();
    }
});

// generic integer algorithms on multiple precision types
mc::Scenario s_generic("generic_on_mul_prec", 16, [](mc::Ctx& x) {
    int part = x.choose(64);
    x.shard_point();
    auto va = alphabet(16, 4, 6), vb = alphabet(16, 4, 6);
    auto g = [&]<class M>() {
        using R = Ref<M>;
        for (std::size_t i = part; i < va.size(); i += 64) {
            U a = va[i];
            M ma = R::make(a);
            I ia = R::neg(a) ? I(a) - 65536 : I(a);
            I mn = M::is_signed ? -32768 : 0, mx = M::is_signed ? 32767 : 65535;
            if (ia >= 0) { I e = 0; while ((e + 1) * (e + 1) <= ia) ++e; MC_CHECK(x, R::get(core::int_sqrt(ma)) == U(e), "int_sqrt ", istr(ia)); }
            for (U b : vb) {
                M mb = R::make(b);
                I ib = R::neg(b) ? I(b) - 65536 : I(b);
                auto ck = [&](const char* n, bool ok, M r, I e) { bool rep = e >= mn && e <= mx; MC_CHECK(x, ok == rep && R::get(r) == (rep ? U(e) & 65535 : a), n, " ", istr(ia), " ", istr(ib), ": ", ok, " ", R::str(R::get(r))); };
                M r = ma; bool ok = core::try_int_add(r, mb); ck("try_int_add", ok, r, ia + ib);
                r = ma; ok = core::try_int_sub(r, mb); ck("try_int_sub", ok, r, ia - ib);
                r = ma; ok = core::try_int_mul(r, mb); ck("try_int_mul", ok, r, ia * ib);
                // mixed with fundamental type
                int v = int(ib); r = ma; ok = core::try_int_add(r, v); ck("try_int_add(int)", ok, r, ia + ib);
                r = ma; ok = core::try_int_mul(r, v); ck("try_int_mul(int)", ok, r, ia * ib);
                int l = int(ia); ok = core::try_int_sub(l, mb); MC_CHECK(x, ok && l == ia - ib, "int - mul_prec");
                MC_CHECK(x, core::int_less(ma, v) == (ia < ib) && core::int_equal(v, ma) == (ia == ib), "comparison");
                x.eval();
            }
            mc::heartbeat();
        }
    };
    g.template operator()<core::MulPrecInt<u8,2,true>>();
    g.template operator()<core::MulPrecInt<u8,2,false>>();
});

} // namespace
