// C07: Unicode transcoding (core/unicode.hpp, core/unicode_bridge.hpp) against an independent
// position based reference.
#include "mc.hpp"
#include <locale>
#include <vector>
#include <archon/core/unicode.hpp>
#include <archon/core/unicode_bridge.hpp>
using namespace archon;

namespace {
using U = std::uint32_t;
using Seq = std::vector<U>;

bool valid_cp(U v) { return v < 0xD800 || (v >= 0xE000 && v <= 0xFFFD) || (v >= 0x10000 && v <= 0x10FFFF); }

std::string show(const Seq& s) { std::string r = "["; char b[16]; for (U u : s) { std::snprintf(b, sizeof b, "%s%X", r.size() > 1 ? " " : "", u); r += b; } return r + "]"; }

enum St { ok, bad, incomplete };
struct Dec { St st; int len; U cp; };

// Decode one sequence at position i. Result `incomplete`: remaining input is a proper prefix
// of a valid sequence; `bad`: it is not; `lead_short`: input ends before the length
// announced by the lead byte is reached.
Dec dec8(const Seq& s, std::size_t i, bool& lead_short)
{
    lead_short = false;
    U a = s[i];
    if (a < 0x80) return { ok, 1, a };
    int n = a >= 0xC0 && a < 0xE0 ? 2 : a >= 0xE0 && a < 0xF0 ? 3 : a >= 0xF0 && a < 0xF8 ? 4 : 0;
    if (n == 0) return { bad, 1, 0 };
    lead_short = s.size() - i < std::size_t(n);
    U v = a & (n == 2 ? 0x1F : n == 3 ? 0x0F : 0x07);
    int k = 1;
    for (; k < n; ++k) {
        if (i + k >= s.size()) break;
        U c = s[i + k];
        if (c < 0x80 || c > 0xBF) return { bad, 1, 0 };
        v = v << 6 | (c & 0x3F);
    }
    U lo = v, hi = v;
    for (int q = k; q < n; ++q) { lo <<= 6; hi = hi << 6 | 0x3F; }
    U mn = n == 2 ? 0x80 : n == 3 ? 0x800 : 0x10000;
    if (k == n) {
        if (v < mn || !valid_cp(v)) return { bad, 1, 0 };
        return { ok, n, v };
    }
    for (U w = std::max(lo, mn); w <= hi && w <= 0x110000; ++w)
        if (valid_cp(w)) return { incomplete, 0, 0 };
    return { bad, 1, 0 };
}
Dec dec16(const Seq& s, std::size_t i, bool& lead_short)
{
    lead_short = false;
    U a = s[i];
    if (a < 0xD800 || (a >= 0xE000 && a <= 0xFFFD)) return { ok, 1, a };
    if (a >= 0xD800 && a < 0xDC00) {
        if (i + 1 >= s.size()) { lead_short = true; return { incomplete, 0, 0 }; }
        U b = s[i + 1];
        if (b >= 0xDC00 && b < 0xE000) return { ok, 2, 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00) };
    }
    return { bad, 1, 0 };
}
Dec dec32(const Seq& s, std::size_t i, bool& lead_short)
{
    lead_short = false;
    if (valid_cp(s[i])) return { ok, 1, s[i] };
    return { bad, 1, 0 };
}
void enc(int form, U v, Seq& o)
{
    if (form == 32) { o.push_back(v); return; }
    if (form == 16) {
        if (v < 0x10000) { o.push_back(v); return; }
        v -= 0x10000;
        o.push_back(0xD800 + (v >> 10));
        o.push_back(0xDC00 + (v & 0x3FF));
        return;
    }
    if (v < 0x80) { o.push_back(v); return; }
    if (v < 0x800) { o.push_back(0xC0 | v >> 6); o.push_back(0x80 | (v & 63)); return; }
    if (v < 0x10000) { o.push_back(0xE0 | v >> 12); o.push_back(0x80 | (v >> 6 & 63)); o.push_back(0x80 | (v & 63)); return; }
    o.push_back(0xF0 | v >> 18); o.push_back(0x80 | (v >> 12 & 63)); o.push_back(0x80 | (v >> 6 & 63)); o.push_back(0x80 | (v & 63));
}

// The conversions. `from`/`to` are code unit widths
#define CONV(nm, from_, to_, f)                                                                                          \
    struct nm {                                                                                                          \
        static constexpr int from = from_, to = to_;                                                                     \
        static constexpr const char* name = #f;                                                                          \
        template<class... A> static void strict(A&&... a) { core::f(std::forward<A>(a)...); }                            \
        template<class... A> static void lenient(A&&... a) { core::f##_l(std::forward<A>(a)...); }                       \
        template<class... A> static void advance(A&&... a) { core::f##_a(std::forward<A>(a)...); }                       \
        template<class... A> static bool attempt(A&&... a) { return core::try_##f(std::forward<A>(a)...); }              \
        template<class... A> static void incr(A&&... a) { core::f##_incr(std::forward<A>(a)...); }                       \
    }
CONV(Enc8, 32, 8, encode_utf8);
CONV(Dec8, 8, 32, decode_utf8);
CONV(Enc16, 32, 16, encode_utf16);
CONV(Dec16, 16, 32, decode_utf16);
CONV(U8to16, 8, 16, utf8_to_utf16);
CONV(U16to8, 16, 8, utf16_to_utf8);

struct Ref {
    Seq strict_out;        // units produced before first error
    std::size_t stop;      // position of first error or end
    bool tail;             // the first error is an incomplete sequence at the end
    Seq lenient_out;
};

// `max_cp`: largest code point which can be represented in the output
template<class K> Ref reference(const Seq& s, U max_cp, U max_in)
{
    Ref r;
    r.tail = false;
    std::size_t i = 0;
    bool strict = true;
    auto resync = [&](std::size_t j) {
        if (K::from == 8) while (j < s.size() && !(s[j] < 0x80 || (s[j] >= 0xC0 && s[j] < 0xF8))) ++j;
        if (K::from == 16) while (j < s.size() && s[j] >= 0xDC00 && s[j] < 0xE000) ++j;
        return j;
    };
    (void)max_in;
    while (i < s.size()) {
        bool ls;
        Dec d = K::from == 8 ? dec8(s, i, ls) : K::from == 16 ? dec16(s, i, ls) : dec32(s, i, ls);
        if (d.st == ok && d.cp <= max_cp) {
            if (strict) enc(K::to, d.cp, r.strict_out);
            enc(K::to, d.cp, r.lenient_out);
            i += std::size_t(d.len);
            continue;
        }
        if (strict) { strict = false; r.stop = i; r.tail = ls; }
        enc(K::to, 0xFFFD, r.lenient_out);
        i = resync(i + 1);
    }
    if (strict) r.stop = i;
    return r;
}

template<class C> std::vector<C> pack(const Seq& s) { std::vector<C> r; for (U u : s) r.push_back(std::char_traits<C>::to_char_type(typename std::char_traits<C>::int_type(u))); return r; }
template<class C> Seq unpack(const C* p, std::size_t n) { Seq r; for (std::size_t i = 0; i < n; ++i) r.push_back(U(std::make_unsigned_t<C>(p[i]))); return r; }

#define FAIL(...) x.fail(mc::str(K::name, show(s), ": ", ##__VA_ARGS__))

// Whole string conversion through all entry points
template<class K, class C, class D> void whole(mc::Ctx& x, const Seq& s, U max_cp = 0x10FFFF, int variants = 2)
{
    Ref r = reference<K>(s, max_cp, 0);
    auto in = pack<C>(s);
    bool good = r.stop == s.size();
    x.eval();
    for (int v = 0; v < variants; ++v) {
        std::size_t off0 = v == 0 ? 0 : 2;
        std::size_t size0 = v == 0 ? 0 : 3;
        auto prep = [&](core::Buffer<D>& b) { b.reserve(size0); for (std::size_t i = 0; i < size0; ++i) b.data()[i] = D('x'); };
        auto verify = [&](core::Buffer<D>& b, std::size_t off, const Seq& e, const char* what) {
            if (off != off0 + e.size()) FAIL(what, " produced ", long(off) - long(off0), " units, expected ", show(e), ", got ", off >= off0 ? show(unpack(b.data() + off0, off - off0)) : "");
            Seq g = unpack(b.data() + off0, e.size());
            if (g != e) FAIL(what, " produced ", show(g), ", expected ", show(e));
            for (std::size_t i = 0; i < off0; ++i) if (b.data()[i] != D('x')) FAIL(what, " overwrote buffer before offset");
        };
        core::StringSpan<C> str(in.data(), in.size());
        {
            core::Buffer<D> b; prep(b);
            std::size_t off = off0;
            bool threw = false;
            try { K::template strict<>(str, b, off); } catch (std::runtime_error&) { threw = true; }
            if (threw == good) FAIL(good ? "rejected valid input" : "accepted invalid input");
            if (good) verify(b, off, r.strict_out, "strict"); else if (off != off0) FAIL("offset changed by failing conversion");
        }
        {
            core::Buffer<D> b; prep(b);
            std::size_t off = off0;
            bool g = K::attempt(str, b, off);
            if (g != good) FAIL("try: ", g);
            if (good) verify(b, off, r.strict_out, "try"); else if (off != off0) FAIL("offset changed by failing try conversion");
        }
        {
            core::Buffer<D> b; prep(b);
            std::size_t off = off0, i = 0;
            K::advance(str, i, b, off);
            if (i != r.stop) FAIL("_a stopped at ", i, ", expected ", r.stop);
            verify(b, off, r.strict_out, "_a");
        }
        {
            core::Buffer<D> b; prep(b);
            std::size_t off = off0;
            K::lenient(str, b, off);
            verify(b, off, r.lenient_out, "lenient");
        }
    }
}

// Incremental conversion with given division of input and output buffer size
template<class K, class C, class D> void incremental(mc::Ctx& x, const Seq& s, unsigned split, std::size_t out_size, U max_cp = 0x10FFFF)
{
    Ref r = reference<K>(s, max_cp, 0);
    auto all = pack<C>(s);
    std::vector<C> pend;
    Seq got;
    std::size_t consumed = 0, at = 0;
    bool failed = false;
    x.eval();
    while (!failed) {
        std::size_t next = at;
        while (next < all.size()) { ++next; if (next < all.size() && (split >> (next - 1) & 1)) break; }
        pend.insert(pend.end(), all.begin() + at, all.begin() + next);
        at = next;
        std::vector<C> in(pend); // exact size: out of bounds reads are detected by ASan
        std::size_t i = 0;
        bool in_ex = false, err = false;
        int stuck = 0;
        while (!in_ex && !err) {
            std::vector<D> out(out_size, D('#'));
            std::size_t o = 0, i0 = i;
            K::template incr<>(core::Span<const C>(in.data(), in.size()), core::Span<D>(out.data(), out.size()), i, o, in_ex, err);
            x.step();
            if (i < i0 || i > in.size() || o > out_size) FAIL("bad offsets");
            for (std::size_t k = o; k < out_size; ++k) if (out[k] != D('#')) FAIL("wrote beyond reported output");
            Seq g = unpack(out.data(), o);
            got.insert(got.end(), g.begin(), g.end());
            if (!in_ex && !err) {
                // must be because of insufficient output space for next sequence
                bool ls;
                Seq rest(s.begin() + long(consumed), s.begin() + long(at));
                if (i >= rest.size()) FAIL("output reported full at end of input");
                Dec d = K::from == 8 ? dec8(rest, i, ls) : K::from == 16 ? dec16(rest, i, ls) : dec32(rest, i, ls);
                if (d.st != ok) FAIL("invalid or incomplete sequence at ", consumed + i, " not reported");
                Seq e; enc(K::to, d.cp, e);
                if (out_size - o >= e.size()) FAIL("stopped at ", consumed + i, " without reason");
                if (i == i0 && ++stuck > 0 && out_size >= 4) FAIL("no progress");
                if (i == i0 && out_size < e.size()) { x.outcome(1); return; } // buffer too small for this sequence
            }
            if (in_ex && K::from == 32 && i != in.size()) FAIL("input not consumed");
        }
        if (err && !in_ex) {
            if (consumed + i != r.stop) FAIL("error reported at ", consumed + i, ", expected ", r.stop, r.stop == s.size() ? " (no error)" : "");
            failed = true;
        }
        else {
            if (i < in.size()) {
                bool ls;
                Seq rest(s.begin() + long(consumed), s.begin() + long(at));
                Dec d = K::from == 8 ? dec8(rest, i, ls) : K::from == 16 ? dec16(rest, i, ls) : dec32(rest, i, ls);
                // A sequence that is shorter than announced by its first unit may be
                // recognized as invalid now or later
                if (!(d.st == incomplete || (d.st == bad && ls))) FAIL("input reported exhausted with complete sequence at ", consumed + i);
            }
        }
        consumed += i;
        pend.assign(in.begin() + long(i), in.end());
        if (at == all.size() && !failed) break;
    }
    if (consumed != r.stop) FAIL("consumed ", consumed, " units, expected ", r.stop, " with division ", split, " and output buffers of ", out_size);
    if (got != r.strict_out) FAIL("produced ", show(got), ", expected ", show(r.strict_out), " with division ", split, " and output buffers of ", out_size);
    x.outcome(mc::mix(r.stop, got.size()));
}

const U a8[] = { 0x41, 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBD, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF };
const U a16[] = { 0x41, 0x00, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE };
const U a32[] = { 0x41, 0x00, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFE, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE };

template<std::size_t N> Seq choose_seq(mc::Ctx& x, const U (&a)[N], int max_len)
{
    Seq s;
    int n = x.range(0, max_len);
    for (int i = 0; i < n; ++i) {
        if (i == 2) x.shard_point();
        s.push_back(x.pick(a));
    }
    if (n < 3) x.shard_point();
    return s;
}

mc::Scenario s1("utf8_whole", 64, [](mc::Ctx& x) {
    Seq s = choose_seq(x, a8, 4);
    MC_TRACE(x, show(s));
    int v = s.size() < 4 ? 2 : 1;
    whole<Dec8, char, char32_t>(x, s, 0x10FFFF, v);
    whole<Dec8, char, char16_t>(x, s, 0xFFFF, v);
    whole<U8to16, char, char16_t>(x, s, 0x10FFFF, v);
    if (s.size() < 4) {
        whole<Dec8, wchar_t, wchar_t>(x, s);
        whole<U8to16, char8_t, wchar_t>(x, s);
    }
    x.outcome(s.size());
});
mc::Scenario s2("utf16_whole", 64, [](mc::Ctx& x) {
    Seq s = choose_seq(x, a16, x.thorough ? 5 : 4);
    MC_TRACE(x, show(s));
    whole<Dec16, char16_t, char32_t>(x, s);
    whole<U16to8, char16_t, char>(x, s);
    whole<Dec16, wchar_t, wchar_t>(x, s);
    x.outcome(s.size());
});
mc::Scenario s3("ucs_whole", 64, [](mc::Ctx& x) {
    Seq s = choose_seq(x, a32, x.thorough ? 4 : 3);
    MC_TRACE(x, show(s));
    whole<Enc8, char32_t, char>(x, s);
    whole<Enc16, char32_t, char16_t>(x, s);
    whole<Enc8, char32_t, char8_t>(x, s);
    whole<Enc16, char32_t, wchar_t>(x, s);
    x.outcome(s.size());
});
mc::Scenario s4("all_code_points", 69, [](mc::Ctx& x) {
    U hi = U(x.choose(69));
    x.shard_point();
    U base = hi << 14;
    for (U v = base; v < base + (1 << 14); ++v) {
        Seq s = { v };
        whole<Enc8, char32_t, char>(x, s, 0x10FFFF, 1);
        whole<Enc16, char32_t, char16_t>(x, s, 0x10FFFF, 1);
        Seq s8, s16;
        enc(8, v, s8); enc(16, v, s16);
        if (v < 0x110000) {
            whole<Dec8, char, char32_t>(x, s8, 0x10FFFF, 1);
            whole<U8to16, char, char16_t>(x, s8, 0x10FFFF, 1);
            if (v != 0xFFFF) { // See char_traits<char16_t>::to_int_type()
                whole<Dec16, char16_t, char32_t>(x, s16, 0x10FFFF, 1);
                whole<U16to8, char16_t, char>(x, s16, 0x10FFFF, 1);
            }
        }
        if (v < 0x10000 && v != 0xFFFF)
            whole<Enc8, char16_t, char>(x, s, 0x10FFFF, 1);
        mc::heartbeat();
    }
    x.outcome(hi);
});
mc::Scenario s5("all_2_unit_utf8", 256, [](mc::Ctx& x) {
    U a = U(x.choose(256));
    x.shard_point();
    for (U b = 0; b < 256; ++b) {
        Seq s = { a, b };
        whole<Dec8, char, char32_t>(x, s, 0x10FFFF, 1);
        whole<U8to16, char, char16_t>(x, s, 0x10FFFF, 1);
        if (x.thorough) for (U c = 0; c < 256; ++c) {
            Seq t = { a, b, c };
            whole<Dec8, char, char32_t>(x, t, 0x10FFFF, 1);
            whole<U8to16, char, char16_t>(x, t, 0x10FFFF, 1);
            mc::heartbeat();
        }
    }
    x.outcome(a);
});

// Tokens for longer texts
const std::vector<Seq>& tokens(int form)
{
    static const std::vector<Seq> t8 = { {0x41}, {0xC3,0xA6}, {0xE2,0x82,0xAC}, {0xF0,0x9F,0x98,0x80}, {0xC2,0x80}, {0xEF,0xBF,0xBD}, {0xF4,0x8F,0xBF,0xBF}, {0x80}, {0xC0,0x80}, {0xE0,0x9F,0xBF}, {0xED,0xA0,0x80}, {0xF4,0x90,0x80,0x80}, {0xE2,0x82}, {0xF0,0x9F}, {0xF8}, {0xE2} };
    static const std::vector<Seq> t16 = { {0x41}, {0x20AC}, {0xD83D,0xDE00}, {0xDBFF,0xDFFF}, {0xFFFD}, {0xD800}, {0xDC00}, {0xFFFE} };
    static const std::vector<Seq> t32 = { {0x41}, {0xE6}, {0x20AC}, {0x1F600}, {0x10FFFF}, {0xD800}, {0x110000}, {0xFFFE} };
    return form == 8 ? t8 : form == 16 ? t16 : t32;
}
template<class K, class C, class D> void chunks(mc::Ctx& x)
{
    int n = x.range(1, 3);
    Seq s;
    for (int i = 0; i < n; ++i) {
        const Seq& t = tokens(K::from)[x.choose(int(tokens(K::from).size()))];
        if (i == 0) x.shard_point();
        s.insert(s.end(), t.begin(), t.end());
    }
    MC_TRACE(x, K::name, " ", show(s));
    if (s.size() > 9 && !x.thorough) x.prune();
    x.state(mc::hash_bytes(s.data(), s.size() * sizeof(U)));
    unsigned splits = 1u << (s.size() - 1);
    for (unsigned k = 0; k < splits; ++k)
        for (std::size_t o : { 1, 2, 3, 4, 5, 16 })
            incremental<K, C, D>(x, s, k, o);
    mc::heartbeat();
}
mc::Scenario c1("incr_decode_utf8", 16, [](mc::Ctx& x) { chunks<Dec8, char, char32_t>(x); });
mc::Scenario c2("incr_decode_utf16", 16, [](mc::Ctx& x) { chunks<Dec16, char16_t, char32_t>(x); });
mc::Scenario c3("incr_encode_utf8", 16, [](mc::Ctx& x) { chunks<Enc8, char32_t, char>(x); });
mc::Scenario c4("incr_encode_utf16", 16, [](mc::Ctx& x) { chunks<Enc16, char32_t, char16_t>(x); });
mc::Scenario c5("incr_utf8_to_utf16", 16, [](mc::Ctx& x) { chunks<U8to16, char, char16_t>(x); });
mc::Scenario c6("incr_utf16_to_utf8", 16, [](mc::Ctx& x) { chunks<U16to8, char16_t, char>(x); });

template<class K, class C, class D, std::size_t N> void chunks_alpha(mc::Ctx& x, const U (&a)[N], int len)
{
    Seq s = choose_seq(x, a, len);
    if (s.empty()) return;
    unsigned splits = 1u << (s.size() - 1);
    for (unsigned k = 0; k < splits; ++k)
        for (std::size_t o : { 1, 2, 4, 5 })
            incremental<K, C, D>(x, s, k, o);
}
mc::Scenario c7("incr_short_utf8", 64, [](mc::Ctx& x) { chunks_alpha<Dec8, char, char32_t>(x, a8, x.thorough ? 4 : 3); });
mc::Scenario c8("incr_short_utf8_to_utf16", 64, [](mc::Ctx& x) { chunks_alpha<U8to16, char, char16_t>(x, a8, x.thorough ? 4 : 3); });
mc::Scenario c9("incr_short_utf16", 64, [](mc::Ctx& x) { chunks_alpha<Dec16, wchar_t, char32_t>(x, a16, 4); });

// Native encoding <-> UTF-8. In the "C" locale, only ASCII characters are representable.
mc::Scenario n1("native_bridge", 64, [](mc::Ctx& x) {
    int loc = x.choose(2);
    int rep = x.choose(3); // amount of ASCII filler in front (internal buffers have a fixed size)
    static const int fill[] = { 0, 31, 62 };
    int dir = x.choose(2);
    bool valid_only = loc == 1;
    const auto& toks = tokens(8);
    int n = x.range(0, 3);
    Seq s(std::size_t(fill[rep]), U('a'));
    Seq e = s;
    for (int i = 0; i < n; ++i) {
        int t = x.choose(valid_only ? 7 : int(toks.size()));
        if (i == 0) x.shard_point();
        s.insert(s.end(), toks[t].begin(), toks[t].end());
    }
    if (n == 0) x.shard_point();
    std::locale locale(loc == 0 ? "C" : "C.utf8");
    auto in = pack<char>(s);
    std::size_t off0 = std::size_t(x.choose(2)) * 2;
    core::Buffer<char> b;
    b.reserve(3);
    b.data()[0] = b.data()[1] = b.data()[2] = 'x';
    std::size_t off = off0;
    core::StringSpan<char> str(in.data(), in.size());
    Seq exp;
    if (loc == 1) exp = s;
    else if (dir == 1) { // UTF-8 -> ASCII; one '?' for every invalid part or other character
        Ref r = reference<Dec8>(s, 0x10FFFF, 0);
        for (U u : r.lenient_out) exp.push_back(u < 128 ? u : U('?'));
    }
    else { // ASCII -> UTF-8. Every run of undecodable bytes becomes one or more replacement characters
        core::Buffer<char> b2;
        std::size_t o2 = 0;
        core::native_mb_to_utf8_transcoder(locale).transcode_l(str, b2, o2);
        Seq g = unpack(b2.data(), o2);
        std::size_t j = 0;
        bool fine = true;
        for (std::size_t i = 0; fine && i < s.size(); ) {
            if (s[i] < 128) { fine = j < g.size() && g[j] == s[i]; ++i; ++j; continue; }
            std::size_t run = 0, reps = 0;
            while (i < s.size() && s[i] >= 128) { ++i; ++run; }
            while (reps < run && j < g.size()) {
                if (g[j] == '?') ++j;
                else if (j + 2 < g.size() && g[j] == 0xEF && g[j + 1] == 0xBF && g[j + 2] == 0xBD) j += 3;
                else break;
                ++reps;
            }
            fine = reps > 0;
        }
        if (!fine || j != g.size()) x.fail(mc::str("native_to_utf8", show(s), " in C locale: ", show(g)));
        exp = g;
    }
    if (dir == 0) core::native_mb_to_utf8_transcoder(locale).transcode_l(str, b, off);
    else core::utf8_to_native_mb_transcoder(locale).transcode_l(str, b, off);
    x.eval();
    if (off != off0 + exp.size() || unpack(b.data() + off0, exp.size()) != exp)
        x.fail(mc::str(dir ? "utf8_to_native" : "native_to_utf8", show(s), " in locale ", loc ? "C.utf8" : "C", " at offset ", off0, ": got ", off >= off0 ? show(unpack(b.data() + off0, off - off0)) : "(offset decreased)", ", expected ", show(exp)));
    for (std::size_t i = 0; i < off0; ++i) if (b.data()[i] != 'x') x.fail("overwrote buffer before offset");
    x.outcome(mc::mix(n, exp.size()));
});
} // namespace
