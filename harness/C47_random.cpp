// C47: random numbers on an exhaustively enumerated engine; seed sequences against std::seed_seq
#include <mc.hpp>
#include <array>
#include <cmath>
#include <limits>
#include <map>
#include <random>
#include <vector>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/core/mul_prec_int.hpp>
#include <archon/core/random.hpp>
using namespace archon;
static std::uint64_t oc(const char* s) { return mc::hash_str(s); }

struct End {};
template<int B> struct Tape { // engine with B bits per call, fed from a tape
    using result_type = std::uint32_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return (1u << B) - 1; }
    const std::vector<unsigned>* tape; std::size_t pos = 0;
    result_type operator()() { if (pos == tape->size()) throw End(); return (*tape)[pos++]; }
};
// run f on all tapes of the given length
template<int B, class F> void all_tapes(int len, F f)
{
    std::vector<unsigned> t(len);
    for (;;) {
        Tape<B> e { &t }; f(e);
        int i = 0; while (i < len && ++t[i] == (1u << B)) t[i++] = 0;
        if (i == len) break;
    }
}
template<class F> void uniform(mc::Ctx& x, long lo, long hi, int len, F draw, const std::string& what)
{
    std::map<long, long> cnt; long total = 0;
    auto one = [&](auto& e) {
        try { long v = draw(e); ++cnt[v]; ++total; x.eval(); if (v < lo || v > hi) x.fail(mc::str(what, " gave ", v)); } catch (End) {}
    };
    all_tapes<4>(len, one);
    if (total == 0) return;
    MC_CHECK(x, long(cnt.size()) == hi - lo + 1, what, " reaches ", cnt.size(), " values");
    for (auto& [v, n] : cnt) MC_CHECK(x, n == cnt.begin()->second, what, ": value ", v, " comes up ", n, " times, ", cnt.begin()->first, " ", cnt.begin()->second, " times");
    x.state(mc::hash_str(what)); x.outcome(oc("uniform"));
}
template<class T> void ints(mc::Ctx& x, const char* name)
{
    using L = std::numeric_limits<T>;
    std::vector<long> ends = { long(L::min()), long(L::min()) + 1, -2, -1, 0, 1, 2, 5, 15, 16, 17, 100, long(L::max()) - 1, long(L::max()) };
    long a = x.pick(ends), b = x.pick(ends); x.shard_point();
    if (a > b || a < long(L::min()) || b > long(L::max()) || b - a > 4000) x.prune();
    uniform(x, a, b, 3, [&](auto& e) { return long(core::rand_int<T>(e, T(a), T(b))); }, mc::str("rand_int<", name, ">(", a, ", ", b, ")"));
    if (a == 0) uniform(x, 0, b, 3, [&](auto& e) { return long(core::rand_int_max<T>(e, T(b))); }, mc::str("rand_int_max<", name, ">(", b, ")"));
    if (a == 0 && b < long(L::max())) uniform(x, 0, b, 3, [&](auto& e) { return long(core::rand_int_mod<T>(e, T(b + 1))); }, mc::str("rand_int_mod<", name, ">(", b + 1, ")"));
    if (a == long(L::min()) && b == long(L::max())) uniform(x, a, b, 3, [&](auto& e) { return long(core::rand_int<T>(e)); }, mc::str("rand_int<", name, ">()"));
}
template<class T> void bits(mc::Ctx& x, const char* name)
{
    int n = x.choose(std::numeric_limits<T>::digits + 1); if (n > 12) x.prune();
    uniform(x, 0, (1l << n) - 1, 3, [&](auto& e) { return long(core::rand_int_bits<T>(e, n)); }, mc::str("rand_int_bits<", name, ">(", n, ")"));
}
static mc::Scenario s_ints("integers", 8, [](mc::Ctx& x) {
    switch (x.choose(6)) {
        case 0: ints<signed char>(x, "signed char"); break; case 1: ints<unsigned char>(x, "unsigned char"); break; case 2: ints<short>(x, "short"); break;
        case 3: ints<unsigned short>(x, "unsigned short"); break; case 4: ints<int>(x, "int"); break; case 5: ints<long>(x, "long"); break;
    }
});
static mc::Scenario s_bits("bits", 1, [](mc::Ctx& x) {
    switch (x.choose(4)) { case 0: bits<unsigned char>(x, "unsigned char"); break; case 1: bits<short>(x, "short"); break; case 2: bits<unsigned>(x, "unsigned"); break; case 3: bits<signed char>(x, "signed char"); break; }
});
template<class M> void mul_prec(mc::Ctx& x, const char* name, long mn, long mx)
{
    std::vector<long> ends = { mn, mn + 1, -300, -257, -256, -255, -2, -1, 0, 1, 2, 5, 15, 16, 17, 127, 128, 254, 255, 256, 257, 300, 510, 511, 512, 700, mx - 1, mx };
    long a = x.pick(ends), b = x.pick(ends); x.shard_point();
    if (a > b || a < mn || b > mx || b - a > 4095) x.prune();
    auto val = [&](M m) { return core::int_cast_a<long>(m); };
    uniform(x, a, b, 4, [&](auto& e) { return val(core::rand_int<M>(e, M(int(a)), M(int(b)))); }, mc::str("rand_int<", name, ">(", a, ", ", b, ")"));
}
static mc::Scenario s_mul("multiple-precision", 8, [](mc::Ctx& x) {
    switch (x.choose(3)) {
        case 0: mul_prec<core::MulPrecInt<unsigned char, 2, false>>(x, "MulPrecInt<unsigned char,2,false>", 0, 65535); break;
        case 1: mul_prec<core::MulPrecInt<unsigned char, 2, true>>(x, "MulPrecInt<unsigned char,2,true>", -32768, 32767); break;
        case 2: mul_prec<core::MulPrecInt<unsigned char, 3, true>>(x, "MulPrecInt<unsigned char,3,true>", -8388608, 8388607); break;
    }
});
static mc::Scenario s_chance("chance", 1, [](mc::Ctx& x) {
    int m = x.range(1, 17), n = x.range(0, m); long yes = 0, total = 0;
    all_tapes<4>(3, [&](auto& e) { try { bool c = core::chance(e, n, m); ++total; yes += c; } catch (End) {} });
    x.eval(); MC_CHECK(x, yes * m == total * n, "chance(", n, ", ", m, ") true ", yes, " of ", total, " times");
    x.state(n * 32 + m); x.outcome(oc("chance"));
});
template<class T> void floats(mc::Ctx& x)
{
    static const std::vector<unsigned> cls = { 0, 1, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x12345678 };
    struct E { using result_type = std::uint32_t; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xFFFFFFFFu; } mc::Ctx* x; int lim; int n = 0; result_type operator()() { if (++n > lim) throw End(); return x->pick(cls); } } e { &x, x.thorough ? 8 : 6 };
    int kind = x.choose(6);
    try {
        if (kind < 3) {
            T a = kind == 0 ? 0 : kind == 1 ? -3 : T(1e6), b = kind == 0 ? 1 : kind == 1 ? 5 : T(1e6) + 1;
            T v = kind == 0 && x.choose(2) ? core::rand_float<T>(e) : core::rand_float<T>(e, a, b);
            x.eval(); MC_CHECK(x, v >= a && v <= b, "rand_float(", a, ", ", b, ") gave ", v);
            if (kind == 0) MC_CHECK(x, v < 1, "rand_float() gave 1");
            x.state(mc::hash_bytes(&v, sizeof v));
        }
        else {
            T v[3]; int n = kind - 2;
            core::rand_unit_vec<T>(e, core::Span<T>(v, std::size_t(n)));
            T s = 0; for (int i = 0; i < n; ++i) s += v[i] * v[i];
            x.eval(); MC_CHECK(x, std::abs(std::sqrt(s) - 1) < 16 * std::numeric_limits<T>::epsilon(), "random unit vector of length ", std::sqrt(s));
            x.state(mc::hash_bytes(v, sizeof(T) * n));
        }
        x.outcome(oc("float"));
    } catch (End) { x.prune(); }
}
static mc::Scenario s_float("floats", 1, [](mc::Ctx& x) { if (x.choose(2)) floats<double>(x); else floats<float>(x); });

// ---------------------------------------------------------------- seed sequences
using W = std::uint_least32_t;
static void same(mc::Ctx& x, const core::SeedSeq& s, const std::vector<W>& ref, const char* how)
{
    std::seed_seq r(ref.begin(), ref.end());
    std::vector<W> p; s.param(std::back_inserter(p));
    MC_CHECK(x, s.size() == ref.size() && p == ref, how, ": parameters differ (", s.size(), " of ", ref.size(), ")");
    for (int n : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 38, 39, 40, 67, 68, 622, 623, 624 }) {
        if (n > 100 && !x.thorough && ref.size() != 3) continue;
        std::vector<W> a(n, 7), b(n, 9); r.generate(b.begin(), b.end()); s.generate(a.begin(), a.end()); x.eval();
        MC_CHECK(x, a == b, how, ": ", n, " words generated from ", ref.size(), " words differ from std::seed_seq");
        std::vector<std::uint64_t> c(n, ~0ull); s.generate(c.begin(), c.end());
        MC_CHECK(x, std::equal(b.begin(), b.end(), c.begin(), c.end()), how, ": ", n, " words generated into 64-bit integers differ");
    }
    x.state(mc::hash_bytes(ref.data(), ref.size() * sizeof(W)));
}
static std::vector<W> words(mc::Ctx& x, int max)
{
    static const std::vector<W> al = { 0, 1, 0xFFFFFFFFu, 0x80000000u, 0x5EED1234u };
    int n = x.choose(max + 1); std::vector<W> v; for (int i = 0; i < n; ++i) v.push_back(x.pick(al)); return v;
}
static mc::Scenario s_seed("seed-sequence", 4, [](mc::Ctx& x) {
    auto v = words(x, x.thorough ? 4 : 3); x.shard_point();
    same(x, core::SeedSeq(v.begin(), v.end()), v, "from iterators");
    same(x, core::SeedSeq::no_copy(core::Span<const W>(v.data(), v.size())), v, "not copied");
    if (v.size() == 0) { same(x, core::SeedSeq(), v, "default"); same(x, core::SeedSeq(std::initializer_list<int> {}), v, "empty list"); }
    if (v.size() == 2) same(x, core::SeedSeq { v[0], v[1] }, v, "from list");
    for (std::size_t i = 0; i <= v.size(); ++i) for (std::size_t j = i; j <= v.size(); ++j) {
        core::SeedSeq::span_type parts[] = { { v.data(), i }, { v.data() + i, j - i }, { v.data() + j, v.size() - j } };
        same(x, core::SeedSeq::no_copy_a(parts), v, "in parts");
    }
    std::vector<W> big; for (int i = 0; i < 700; ++i) big.push_back(W(i * 2654435761u)); same(x, core::SeedSeq(big.begin(), big.end()), big, "long");
    std::istringstream none; std::mt19937 a, b; std::seed_seq ss(v.begin(), v.end()); a.seed(ss); core::SeedSeq cs(v.begin(), v.end()); b.seed(cs);
    MC_CHECK(x, a == b, "engine seeded differently");
    x.outcome(oc("seed"));
});
static mc::Scenario s_move("seed-sequence-moves", 1, [](mc::Ctx& x) {
    static const std::vector<W> k1 = { 1, 2, 3 }, k2 = { 9 }; static const core::SeedSeq::span_type parts[] = { { k1.data(), 2 }, { k2.data(), 1 } };
    std::optional<core::SeedSeq> s[2]; std::optional<std::vector<W>> r[2];
    auto make = [&](int i) {
        switch (x.choose(4)) {
            case 0: s[i].emplace(k1.begin(), k1.end()); r[i] = k1; break;
            case 1: s[i].emplace(); r[i] = std::vector<W>(); break;
            case 2: s[i].emplace(core::SeedSeq::no_copy(core::Span<const W>(k2.data(), 1))); r[i] = k2; break;
            case 3: s[i].emplace(core::SeedSeq::no_copy_a(parts)); r[i] = std::vector<W> { 1, 2, 9 }; break;
        }
    };
    make(0); make(1);
    int len = x.thorough ? 4 : 3;
    for (int q = 0; q < len; ++q) {
        int i = x.choose(2), op = x.choose(3); x.step();
        MC_TRACE(x, op == 0 ? "assign to " : op == 1 ? "move construct " : "remake ", i, "; ");
        if (op == 0) { *s[i] = std::move(*s[1 - i]); r[i] = r[1 - i]; r[1 - i] = std::vector<W>(); }
        else if (op == 1) { core::SeedSeq t(std::move(*s[i])); same(x, *s[i], {}, "moved from"); s[i].emplace(std::move(t)); }
        else make(i);
        for (int j = 0; j < 2; ++j) same(x, *s[j], *r[j], "after moves");
    }
    x.outcome(oc("moves"));
});
