// C24: part copying, endianness, hashing, literal hash maps, bit media and bit fields against bit-by-bit references
#include "ints.hpp"
#include <array>
#include <map>
#include <cstring>
#include <optional>
#include <utility>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/core/mul_prec_int.hpp>
#include <archon/core/endianness.hpp>
#include <archon/core/hash_fnv.hpp>
#include <archon/core/hash.hpp>
#include <archon/core/literal_hash_map.hpp>
#include <archon/image/comp_types.hpp>
#include <archon/image/bit_medium.hpp>
#include <archon/image/bit_field.hpp>

using namespace archon;
using U24 = core::MulPrecInt<unsigned char, 3, false>;
using U40 = core::MulPrecInt<unsigned char, 5, false>; // 40 bits
template<> struct Name<U24> { static constexpr const char* v = "MulPrecInt<unsigned char,3>"; };
template<> struct Name<U40> { static constexpr const char* v = "MulPrecInt<unsigned char,5>"; };

// ---------------------------------------------------------------- bits of one part
template<class T> struct Bits {
    static constexpr int width = std::is_same_v<T, bool> ? 1 : int(sizeof(T) * 8);
    static T make(const std::vector<int>& b, int off) { std::uint64_t v = 0; for (int i = 0; i < width; ++i) if (b[off + i]) v |= std::uint64_t(1) << i; return T(v); }
    static void get(T v, std::vector<int>& out) { for (int i = 0; i < width; ++i) out.push_back(int((std::uint64_t(v) >> i) & 1)); }
};
template<class P, int K> struct Bits<core::MulPrecInt<P, K, false>> {
    using T = core::MulPrecInt<P, K, false>;
    static constexpr int width = Bits<P>::width * K;
    static T make(const std::vector<int>& b, int off) { typename T::parts_type p = {}; for (int i = 0; i < K; ++i) p[i] = Bits<P>::make(b, off + i * Bits<P>::width); return T(p); }
    static void get(T v, std::vector<int>& out) { auto p = v.get_parts(); for (int i = 0; i < K; ++i) Bits<P>::get(p[i], out); }
};

std::string bitstr(const std::vector<int>& b) { std::string s; for (int i = int(b.size()); i-- > 0;) s += char('0' + b[i]); return s; }

// patterns over n bits: everything if small, else structured
std::vector<std::vector<int>> patterns(int n, int part, bool thorough)
{
    std::set<std::vector<int>> s;
    int lim = thorough ? 14 : 10;
    if (n <= lim) {
        for (unsigned v = 0; v < (1u << n); ++v) { std::vector<int> b(n); for (int i = 0; i < n; ++i) b[i] = (v >> i) & 1; s.insert(b); }
    }
    else {
        auto both = [&](std::vector<int> b) { s.insert(b); for (int& i : b) i ^= 1; s.insert(b); };
        for (int i = 0; i < n; ++i) { std::vector<int> b(n); b[i] = 1; both(b); }           // single bits
        for (int i = 0; i <= n; ++i) { std::vector<int> b(n); for (int j = 0; j < i; ++j) b[j] = 1; both(b); } // prefixes
        for (int m : { 2, 3, 5, 7, 11 }) { std::vector<int> b(n); for (int j = 0; j < n; ++j) b[j] = (j % m == 0); both(b); }
        { std::vector<int> b(n); std::uint64_t h = 1; for (int j = 0; j < n; ++j) { h = mc::mix(h, j); b[j] = h & 1; } both(b); }
        // every part independently of a class
        int k = n / part;
        if (k <= 4) {
            int c = 1; for (int i = 0; i < k; ++i) c *= 5;
            for (int v = 0; v < c; ++v) {
                std::vector<int> b(n); int w = v;
                for (int i = 0; i < k; ++i) { int d = w % 5; w /= 5; for (int j = 0; j < part; ++j) b[i * part + j] = d == 1 ? 1 : d == 2 ? j == part - 1 : d == 3 ? j == 0 : d == 4 ? (j % 3 == 1) : 0; }
                s.insert(b);
            }
        }
    }
    return { s.begin(), s.end() };
}

using CopyFunc = std::vector<int>(*)(const std::vector<int>& bits, bool sign, int fill, bool& input_ok);
template<class T, class U, std::size_t N, std::size_t M> std::vector<int> do_copy(const std::vector<int>& b, bool sign, int fill, bool& input_ok)
{
    constexpr int w1 = Bits<T>::width, w2 = Bits<U>::width;
    std::array<T, N> from = {};
    for (std::size_t i = 0; i < N; ++i) from[i] = Bits<T>::make(b, int(i) * w1);
    std::array<U, M> to = {};
    for (auto& p : to) p = Bits<U>::make(std::vector<int>(w2, fill), 0);
    if (sign) core::int_bit_copy<true>(from, to); else core::int_bit_copy<false>(from, to);
    std::vector<int> got, q;
    for (auto& p : to) Bits<U>::get(p, got);
    for (auto& p : from) Bits<T>::get(p, q);
    input_ok = q == b;
    return got;
}
void bit_copy(mc::Ctx& x, int N, int M, int w1, int w2, CopyFunc f, const char* name_1, const char* name_2)
{
    x.shard_point();
    int n1 = w1 * N, n2 = w2 * M;
    for (const auto& b : patterns(n1, w1, x.thorough)) {
        for (int sign = 0; sign < 2; ++sign) {
            for (int fill = 0; fill < 2; ++fill) {
                bool input_ok = false;
                std::vector<int> got = f(b, sign, fill, input_ok), want(n2);
                for (int i = 0; i < n2; ++i) want[i] = i < n1 ? b[i] : sign ? b[n1 - 1] : 0;
                x.eval();
                MC_CHECK(x, got == want, "int_bit_copy<", sign, "> of ", N, " x ", name_1, " ", bitstr(b), " to ", M, " x ", name_2, " gives ", bitstr(got), " expected ", bitstr(want));
                MC_CHECK(x, input_ok, "int_bit_copy changed its input");
            }
        }
        x.state(mc::mix(mc::hash_str(bitstr(b)), mc::hash_str(name_2) + N * 16 + M));
    }
    x.outcome(mc::hash_str("copied"));
}
template<class T, class U> void bit_copy_sizes(mc::Ctx& x)
{
    auto go = [&]<std::size_t N, std::size_t M>() { bit_copy(x, int(N), int(M), Bits<T>::width, Bits<U>::width, &do_copy<T, U, N, M>, Name<T>::v, Name<U>::v); };
    constexpr std::size_t n3 = std::is_same_v<T, bool> ? 17 : 3, m3 = std::is_same_v<U, bool> ? 17 : 5;
    switch (x.choose(9)) {
        case 0: go.template operator()<1, 1>(); break;
        case 1: go.template operator()<1, 2>(); break;
        case 2: go.template operator()<1, m3>(); break;
        case 3: go.template operator()<2, 1>(); break;
        case 4: go.template operator()<2, 2>(); break;
        case 5: go.template operator()<2, m3>(); break;
        case 6: go.template operator()<n3, 1>(); break;
        case 7: go.template operator()<n3, 2>(); break;
        case 8: go.template operator()<n3, m3>(); break;
    }
}
template<class T> void bit_copy_to(mc::Ctx& x)
{
    switch (x.choose(7)) {
        case 0: bit_copy_sizes<T, bool>(x); break;
        case 1: bit_copy_sizes<T, unsigned char>(x); break;
        case 2: bit_copy_sizes<T, unsigned short>(x); break;
        case 3: bit_copy_sizes<T, unsigned>(x); break;
        case 4: bit_copy_sizes<T, unsigned long>(x); break;
        case 5: bit_copy_sizes<T, U24>(x); break;
        case 6: bit_copy_sizes<T, U40>(x); break;
    }
}
static mc::Scenario s_copy("bit-copy", 8, [](mc::Ctx& x) {
    switch (x.choose(7)) {
        case 0: bit_copy_to<bool>(x); break;
        case 1: bit_copy_to<unsigned char>(x); break;
        case 2: bit_copy_to<unsigned short>(x); break;
        case 3: bit_copy_to<unsigned>(x); break;
        case 4: bit_copy_to<unsigned long>(x); break;
        case 5: bit_copy_to<U24>(x); break;
        case 6: bit_copy_to<U40>(x); break;
    }
});

// ---------------------------------------------------------------- endianness
template<int P, int W> struct Perm {
    // memory position of byte i (i = significance)
    static constexpr std::array<int, W> get()
    {
        std::array<int, W> a = {}; int rest = P; std::array<int, W> pool = {}; int n = W;
        for (int i = 0; i < W; ++i) pool[i] = i;
        for (int i = 0; i < W; ++i) { int k = rest % n; rest /= n; a[i] = pool[k]; for (int j = k; j + 1 < n; ++j) pool[j] = pool[j + 1]; --n; }
        return a;
    }
};
template<int P, int W> struct PInt {
    using mp = core::MulPrecInt<unsigned char, W, false>;
    using parts_type = typename mp::parts_type;
    static constexpr auto perm = Perm<P, W>::get();
    parts_type m = {};
    constexpr PInt() noexcept = default;
    explicit constexpr PInt(int v) noexcept : PInt(mp(v)) {}
    explicit constexpr operator int() const noexcept { return int(mp(*this)); }
    explicit constexpr PInt(mp v) noexcept { parts_type p = v.get_parts(); for (int i = 0; i < W; ++i) m[perm[i]] = p[i]; }
    explicit constexpr operator mp() const noexcept { parts_type p = {}; for (int i = 0; i < W; ++i) p[i] = m[perm[i]]; return mp(p); }
    constexpr auto operator+() const noexcept { return *this; }
    constexpr auto operator-() const noexcept { return PInt(-mp(*this)); }
    constexpr auto operator~() const noexcept { return PInt(~mp(*this)); }
#define OP(o) constexpr auto operator o(PInt b) const noexcept -> PInt { return PInt(mp(*this) o mp(b)); } constexpr auto operator o##=(PInt b) noexcept -> PInt& { return (*this = *this o b); }
    OP(+) OP(-) OP(*) OP(/) OP(%) OP(&) OP(|) OP(^)
#undef OP
    constexpr auto operator<<(int n) const noexcept -> PInt { return PInt(mp(*this) << n); }
    constexpr auto operator>>(int n) const noexcept -> PInt { return PInt(mp(*this) >> n); }
    constexpr auto operator<<=(int n) noexcept -> PInt& { return (*this = *this << n); }
    constexpr auto operator>>=(int n) noexcept -> PInt& { return (*this = *this >> n); }
#define OP(o) constexpr bool operator o(PInt b) const noexcept { return mp(*this) o mp(b); }
    OP(==) OP(!=) OP(<) OP(<=) OP(>) OP(>=)
#undef OP
};
namespace archon::core {
template<int P, int W> struct IntegerTraits<PInt<P, W>> {
    using int_type = PInt<P, W>; using unsigned_type = int_type;
    using mt = core::IntegerTraits<typename int_type::mp>;
    static constexpr bool is_specialized = true; static constexpr int num_value_bits = mt::num_value_bits; static constexpr bool is_signed = false;
    static constexpr bool has_divmod = false, has_find_msb_pos = false;
    static constexpr auto min() noexcept -> int_type { return int_type(mt::min()); }
    static constexpr auto max() noexcept -> int_type { return int_type(mt::max()); }
    using part_type = typename mt::part_type; static constexpr int num_parts = mt::num_parts; using parts_type = std::array<part_type, num_parts>;
    static constexpr auto get_parts(int_type v) noexcept -> parts_type { return mt::get_parts(typename int_type::mp(v)); }
    static constexpr auto from_parts(parts_type p) noexcept -> int_type { return int_type(mt::from_parts(p)); }
};
}
template<class T> void endian(mc::Ctx& x, const char* name, int want) // 0 big, 1 little, 2 none
{
    core::Endianness e = core::Endianness(7);
    bool has = core::try_get_byte_order<T>(e);
    MC_TRACE(x, name, " -> ", has, " ", int(e));
    x.eval();
    MC_CHECK(x, has == (want != 2), name, ": byte order determined: ", has);
    if (has) MC_CHECK(x, (e == core::Endianness::big) == (want == 0) && (e == core::Endianness::little) == (want == 1), name, ": wrong byte order ", int(e));
    MC_CHECK(x, core::is_big_endian<T>() == (want == 0) && core::is_little_endian<T>() == (want == 1) && core::is_indeterminate_endian<T>() == (want == 2), name, ": predicates disagree");
    x.state(mc::hash_str(name)); x.outcome(mc::hash_str(want == 0 ? "big" : want == 1 ? "little" : "indeterminate"));
}
template<int W, int P> void endian_perm(mc::Ctx& x)
{
    constexpr auto p = Perm<P, W>::get();
    bool id = true, rev = true;
    for (int i = 0; i < W; ++i) { if (p[i] != i) id = false; if (p[i] != W - 1 - i) rev = false; }
    std::string name = "bytes of significance 0.. at";
    for (int i : p) name += " " + std::to_string(i);
    endian<PInt<P, W>>(x, name.c_str(), W == 1 ? 0 : id ? 1 : rev ? 0 : 2);
}
template<int W, int... P> void endian_all(mc::Ctx& x, std::integer_sequence<int, P...>) { int k = x.choose(int(sizeof...(P))); ((P == k ? endian_perm<W, P>(x) : void()), ...); }
template<class T> void endian_std(mc::Ctx& x)
{
    T v = T(1); unsigned char b[sizeof(T)]; std::memcpy(b, &v, sizeof v);
    endian<T>(x, Name<T>::v, sizeof(T) == 1 ? 0 : b[0] == 1 ? 1 : 0);
}
static mc::Scenario s_endian("endianness", 1, [](mc::Ctx& x) {
    switch (x.choose(5)) {
        case 0: {
            switch (x.choose(12)) {
                case 0: endian_std<char>(x); break; case 1: endian_std<unsigned char>(x); break; case 2: endian_std<short>(x); break;
                case 3: endian_std<unsigned short>(x); break; case 4: endian_std<int>(x); break; case 5: endian_std<unsigned>(x); break;
                case 6: endian_std<long>(x); break; case 7: endian_std<unsigned long>(x); break; case 8: endian_std<wchar_t>(x); break;
                case 9: endian_std<char16_t>(x); break; case 10: endian_std<char32_t>(x); break; case 11: endian_std<bool>(x); break;
            }
            break;
        }
        case 1: endian_all<1>(x, std::make_integer_sequence<int, 1>()); break;
        case 2: endian_all<2>(x, std::make_integer_sequence<int, 2>()); break;
        case 3: endian_all<3>(x, std::make_integer_sequence<int, 6>()); break;
        case 4: endian_all<4>(x, std::make_integer_sequence<int, 24>()); break;
    }
});

// ---------------------------------------------------------------- hashing
struct Ref { std::uint32_t h = 2166136261u; void add(unsigned char c) { h ^= c; h *= 16777619u; } };
template<class T> void hash_int(mc::Ctx& x)
{
    x.shard_point();
    const auto& vs = values<T>(x.thorough);
    for (T v : vs) {
        for (T v2 : { T(0), T(1), v }) {
            core::Hash_FNV_1a_32 h; Ref r;
            auto add = [&](T q) {
                h.add_int(q);
                unsigned __int128 u = (unsigned __int128)I(q);
                int w = std::is_same_v<T, bool> ? 1 : int(sizeof(T));
                for (int i = 0; i < w; ++i) r.add((unsigned char)(u >> (8 * i)));
            };
            add(v);
            if constexpr (requires { core::Hash<T>()(v); }) {
                auto k = core::Hash<T>()(v);
                MC_CHECK(x, k == h.get(), "Hash<", Name<T>::v, "> of ", istr(I(v)), " is ", k, " but FNV is ", h.get());
            }
            MC_CHECK(x, h.get() == r.h, "hash of ", Name<T>::v, " ", istr(I(v)), " is ", std::uint64_t(h.get()), " but FNV-1a of its octets is ", r.h);
            add(v2);
            x.eval();
            MC_CHECK(x, h.get() == r.h, "hash of ", Name<T>::v, " ", istr(I(v)), ", ", istr(I(v2)), " is ", std::uint64_t(h.get()), " but FNV-1a of its octets is ", r.h);
            core::Hash_FNV_1a_32 g; Ref q;
            g.add_obj(v); unsigned char b[sizeof(T)]; std::memcpy(b, &v, sizeof v); for (unsigned char c : b) q.add(c);
            MC_CHECK(x, g.get() == q.h, "add_obj of ", Name<T>::v, " ", istr(I(v)), " differs");
            if (std::uint64_t(g.get()) > 0xFFFFFFFFu) x.fail("hash exceeds 32 bits");
        }
        x.state(mc::mix(mc::hash_str(Name<T>::v), std::uint64_t(v)));
    }
    x.outcome(mc::hash_str(Name<T>::v));
}
static mc::Scenario s_hash("hash-int", 4, [](mc::Ctx& x) {
    switch (x.choose(16)) {
        case 0: hash_int<bool>(x); break; case 1: hash_int<char>(x); break; case 2: hash_int<signed char>(x); break; case 3: hash_int<unsigned char>(x); break;
        case 4: hash_int<wchar_t>(x); break; case 5: hash_int<char16_t>(x); break; case 6: hash_int<char32_t>(x); break; case 7: hash_int<short>(x); break;
        case 8: hash_int<unsigned short>(x); break; case 9: hash_int<int>(x); break; case 10: hash_int<unsigned>(x); break; case 11: hash_int<long>(x); break;
        case 12: hash_int<unsigned long>(x); break; case 13: hash_int<long long>(x); break; case 14: hash_int<unsigned long long>(x); break; case 15: hash_int<char8_t>(x); break;
    }
});
static mc::Scenario s_hash_bytes("hash-bytes", 1, [](mc::Ctx& x) {
    int n = x.choose(4);
    core::Hash_FNV_1a_32 h; Ref r; std::string s;
    static const std::vector<int> al = { 0, 1, 0x7F, 0x80, 0xFF, 'a', 0x10 };
    for (int i = 0; i < n; ++i) {
        int b = i == 0 ? x.choose(256) : x.pick(al);
        h.add_byte(std::byte(b)); r.add((unsigned char)b); s += char(b);
    }
    x.eval(); x.state(mc::hash_str(s));
    MC_CHECK(x, h.get() == r.h, "hash of bytes ", mc::esc(s), " is ", std::uint64_t(h.get()), ", FNV-1a is ", r.h);
    x.outcome(mc::hash_str("bytes"));
});
enum class E8 : signed char {}; enum class E16 : unsigned short {}; enum E32 : int {}; enum class EB : bool {};
template<class E> void hash_enum(mc::Ctx& x)
{
    using T = std::underlying_type_t<E>;
    for (T v : values<T>()) {
        core::Hash_FNV_1a_32 h; h.add_int(v);
        Ref r; for (int i = 0; i < int(sizeof(T)); ++i) r.add((unsigned char)(std::uint64_t(v) >> (8 * i)));
        x.eval();
        MC_CHECK(x, core::Hash<E>()(E(v)) == r.h, "hash of enumeration value ", istr(I(v)), " differs from FNV-1a of underlying value");
    }
}
static mc::Scenario s_hash_enum("hash-enum", 1, [](mc::Ctx& x) {
    switch (x.choose(4)) { case 0: hash_enum<E8>(x); break; case 1: hash_enum<E16>(x); break; case 2: hash_enum<E32>(x); break; case 3: hash_enum<EB>(x); break; }
    x.outcome(mc::hash_str("enum"));
});

// ---------------------------------------------------------------- literal hash map
struct BadHash { int mode; constexpr auto operator()(int k) const noexcept -> std::size_t { return mode == 0 ? 0 : mode == 1 ? std::size_t(k) : mode == 2 ? std::size_t(-1) : std::size_t(k) * 7919u; } };
template<std::size_t N, std::size_t M> void lit_map(mc::Ctx& x)
{
    std::pair<int, int> a[N]; std::pair<int, int> r[N];
    std::map<int, int> ref;
    static const std::vector<int> keys = { -128, -1, 0, 1, 2, 7, 256 };
    unsigned used = 0;
    for (std::size_t i = 0; i < N; ++i) {
        int left = 0; for (std::size_t k = 0; k < keys.size(); ++k) if (!(used >> k & 1)) ++left;
        int c = x.choose(left); std::size_t k = 0;
        for (;; ++k) { if (used >> k & 1) continue; if (c-- == 0) break; }
        used |= 1u << k;
        a[i] = { keys[k], int(100 + i) }; r[i] = { int(100 + i), keys[k] };
        ref[keys[k]] = int(100 + i);
    }
    x.shard_point();
    auto test = [&](const auto& map, const char* what) {
        for (int k = -130; k <= 260; ++k) {
            int v = -7; bool f = map.find(k, v);
            auto i = ref.find(k);
            x.eval();
            MC_CHECK(x, f == (i != ref.end()) && v == (f ? i->second : -7), what, " with ", N, " entries and ", M, " buckets: find(", k, ") is ", f, " value ", v);
        }
    };
    test(core::make_literal_hash_map<M>(a), "literal hash map");
    test(core::make_rev_literal_hash_map<M>(r), "reverse literal hash map");
    for (int mode = 0; mode < 4; ++mode) {
        test(core::make_literal_hash_map<M>(a, BadHash { mode }), "literal hash map with given hash");
        test(core::make_rev_literal_hash_map<M>(r, BadHash { mode }), "reverse literal hash map with given hash");
    }
    x.state(mc::mix(used, N * 16 + M)); x.outcome(mc::hash_str("map"));
}
static mc::Scenario s_lit("literal-hash-map", 4, [](mc::Ctx& x) {
    switch (x.choose(12)) {
        case 0: lit_map<1, 0>(x); break; case 1: lit_map<1, 3>(x); break; case 2: lit_map<2, 0>(x); break; case 3: lit_map<2, 1>(x); break;
        case 4: lit_map<2, 5>(x); break; case 5: lit_map<3, 0>(x); break; case 6: lit_map<3, 1>(x); break; case 7: lit_map<3, 2>(x); break;
        case 8: lit_map<3, 4>(x); break; case 9: lit_map<3, 64>(x); break; case 10: lit_map<4, 3>(x); break; case 11: lit_map<4, 0>(x); break;
    }
});
enum class Col : signed char { red = -3, green = 4, blue = 127, none = -128 };
static mc::Scenario s_lit_enum("literal-hash-map-enum", 1, [](mc::Ctx& x) {
    static constexpr std::pair<Col, char> a[] = { { Col::red, 'r' }, { Col::green, 'g' }, { Col::blue, 'b' } };
    constexpr auto m = core::make_literal_hash_map(a);
    constexpr auto m2 = core::make_literal_hash_map<7>(a);
    for (int v = -128; v < 128; ++v) {
        char want = v == -3 ? 'r' : v == 4 ? 'g' : v == 127 ? 'b' : 0;
        char c = 0; bool f = m.find(Col(v), c); char d = 0; bool g = m2.find(Col(v), d);
        x.eval();
        MC_CHECK(x, f == (want != 0) && c == want && g == f && d == want, "lookup of enumeration value ", v, " gives ", f, " ", int(c), "/", g, " ", int(d));
    }
    x.outcome(mc::hash_str("enum map"));
});

// ---------------------------------------------------------------- bit media
template<class T, int N> void medium(mc::Ctx& x)
{
    constexpr int W = std::is_same_v<T, bool> ? 1 : int(sizeof(T)) * 8;
    static_assert(image::is_bit_medium_of_width<T, N> == (N <= W));
    static_assert(image::bit_width<T> == W);
    using UP = image::unpacked_type<T, N>;
    static_assert(std::numeric_limits<UP>::digits >= N);
    constexpr int vb = std::numeric_limits<T>::digits;
    std::set<I> vs; I top = (I(1) << N) - 1;
    if (N <= (x.thorough ? 16 : 9)) for (I v = 0; v <= top; ++v) vs.insert(v);
    else for (int k = 0; k <= N; ++k) for (int e = -2; e <= 2; ++e) { I v = (I(1) << k) + e; if (v >= 0 && v <= top) { vs.insert(v); vs.insert(top - v); } }
    for (I v : vs) {
        I want = vb >= N || v < (I(1) << (N - 1)) ? v : v - (I(1) << N);
        auto one = [&]<class U>(U u) {
            if (I(u) != v) return;
            T p = image::pack_int<T, N>(u);
            x.eval();
            MC_CHECK(x, I(p) == want, "pack_int<", Name<T>::v, ",", N, ">(", Name<U>::v, " ", istr(v), ") is ", istr(I(p)), " expected ", istr(want));
        };
        one((unsigned long)v); one((UP)v); if (v <= I(std::numeric_limits<long>::max())) one((long)v); if (fits<int>(v)) one((int)v);
        if (fits<unsigned char>(v)) one((unsigned char)v);
        if (fits<signed char>(v)) one((signed char)v);
        if (fits<short>(v)) one((short)v);
        UP b = image::unpack_int<N>(T(want));
        MC_CHECK(x, I(b) == v, "unpack_int<", N, ">(", Name<T>::v, " ", istr(want), ") is ", istr(I(b)), " expected ", istr(v));
        MC_CHECK(x, I(image::unpack_int_a<N, unsigned long>(T(want))) == v, "unpack_int_a to unsigned long of ", Name<T>::v, " ", istr(want), " N=", N);
        if constexpr (N <= 63) MC_CHECK(x, I(image::unpack_int_a<N, long>(T(want))) == v, "unpack_int_a to long of ", Name<T>::v, " ", istr(want), " N=", N);
        if constexpr (N <= 31) MC_CHECK(x, I(image::unpack_int_a<N, int>(T(want))) == v, "unpack_int_a to int of ", Name<T>::v, " ", istr(want), " N=", N);
        if constexpr (N <= 8) MC_CHECK(x, I(image::unpack_int_a<N, unsigned char>(T(want))) == v, "unpack_int_a to unsigned char of ", Name<T>::v, " ", istr(want), " N=", N);
        x.state(mc::mix(std::uint64_t(v), mc::hash_str(Name<T>::v) + N));
    }
}
template<class T, int N> void medium_if(mc::Ctx& x) { if constexpr (N <= 17 || (N >= 30 && N <= 33) || N == 24 || N >= 62 || N == 48) medium<T, N>(x); }
template<class T> void media(mc::Ctx& x)
{
    constexpr int W = std::is_same_v<T, bool> ? 1 : int(sizeof(T)) * 8;
    int n = x.range(1, W);
    x.shard_point();
    [&]<int... K>(std::integer_sequence<int, K...>) { ((K + 1 == n ? medium_if<T, K + 1>(x) : void()), ...); }(std::make_integer_sequence<int, W>());
    x.outcome(mc::hash_str("medium"));
}
static mc::Scenario s_medium("bit-medium", 8, [](mc::Ctx& x) {
    switch (x.choose(11)) {
        case 0: media<unsigned char>(x); break; case 1: media<signed char>(x); break; case 2: media<char>(x); break; case 3: media<short>(x); break;
        case 4: media<unsigned short>(x); break; case 5: media<int>(x); break; case 6: media<unsigned>(x); break; case 7: media<long>(x); break;
        case 8: media<unsigned long>(x); break; case 9: media<bool>(x); break; case 10: media<wchar_t>(x); break;
    }
});

// ---------------------------------------------------------------- bit fields
template<class T> void mask_check(mc::Ctx& x, const std::vector<image::BitField>& f, int k, int shift)
{
    constexpr int W = image::bit_width<T>;
    if (shift + f[k].width > W) return;
    unsigned __int128 m = (((unsigned __int128)1 << f[k].width) - 1) << shift;
    T got = image::get_bit_field_mask<T>(f.data(), int(f.size()), k);
    unsigned __int128 g = (unsigned __int128)I(got) & (((unsigned __int128)1 << W) - 1);
    x.eval();
    MC_CHECK(x, g == m, "bit field mask of field ", k, " in ", Name<T>::v, " is ", istr(I(got)));
}
static mc::Scenario s_field("bit-field", 8, [](mc::Ctx& x) {
    int n = x.choose(5);
    static const std::vector<int> ws = { 1, 2, 3, 5, 8, 16, 31, 0, -1, std::numeric_limits<int>::max() }, ws2 = { 1, 3, 8, 32, 64, 0 };
    static const std::vector<int> gs = { 0, 1, 4, 32, -1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min() }, gs2 = { 0, 2, 7, -1 }, ws3 = { 1, 8 }, gs3 = { 0, 3 };
    std::vector<image::BitField> f; bool legal = true; I total = 0; std::uint64_t h = n;
    int mw = 0;
    for (int i = 0; i < n; ++i) {
        bool big = x.thorough ? i < 3 : i < 2;
        int w = x.pick(big ? ws : i < 3 ? ws2 : ws3), g = x.pick(big ? gs : i < 3 ? gs2 : gs3);
        f.push_back({ w, g }); if (w < 1 || g < 0) legal = false; total += w; total += g; h = mc::mix(h, mc::mix(unsigned(w), unsigned(g)));
        if (w > mw) mw = w;
    }
    x.shard_point();
    for (int avail : { 0, 1, 7, 8, 9, 16, 31, 32, 33, 64, 100, std::numeric_limits<int>::max() }) {
        x.eval();
        bool want = legal && total <= avail;
        MC_CHECK(x, image::valid_bit_fields(f.data(), n, avail) == want, "valid_bit_fields wrong for total ", istr(total), " of ", avail, " expected ", want);
    }
    for (I a : { total - 1, total, total + 1 }) if (legal && fits<int>(a)) MC_CHECK(x, image::valid_bit_fields(f.data(), n, int(a)) == (total <= a), "valid_bit_fields wrong at exact total ", istr(total));
    x.state(h);
    if (!legal || total > 64) { x.outcome(mc::hash_str("invalid")); return; }
    x.outcome(mc::hash_str("valid"));
    MC_CHECK(x, image::widest_bit_field(f.data(), n) == mw, "widest_bit_field is not ", mw);
    for (int k = 0; k < n; ++k) {
        int shift = f[k].gap;
        for (int j = k + 1; j < n; ++j) shift += f[j].width + f[j].gap;
        MC_CHECK(x, image::get_bit_field_width(f.data(), n, k) == f[k].width, "field width");
        MC_CHECK(x, image::get_bit_field_shift(f.data(), n, k) == shift, "shift of field ", k, " is ", image::get_bit_field_shift(f.data(), n, k), " expected ", shift);
        mask_check<unsigned char>(x, f, k, shift); mask_check<signed char>(x, f, k, shift); mask_check<unsigned short>(x, f, k, shift); mask_check<short>(x, f, k, shift);
        mask_check<int>(x, f, k, shift); mask_check<unsigned>(x, f, k, shift); mask_check<long>(x, f, k, shift); mask_check<unsigned long>(x, f, k, shift);
    }
});
