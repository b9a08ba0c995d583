#include "ints.hpp"
#include <locale>
#include <optional>
#include <sstream>
#include <archon/core/char_mapper.hpp>
#include <archon/core/integer_formatter.hpp>
#include <archon/core/integer_parser.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/core/as_int.hpp>
using namespace archon;

namespace {

using Sign = core::IntegerParserBase::Sign;

std::string ref_format(I v, int radix, int min_digits, bool lower)
{
    const char* dg = lower ? "0123456789abcdefghijklmnopqrstuvwxyz" : "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    bool n = v < 0;
    std::string s;
    while (v != 0 || int(s.size()) < min_digits) { int d = int(v % radix); s += dg[d < 0 ? -d : d]; v /= radix; }
    if (n) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : c >= 'a' && c <= 'z' ? c - 'a' + 10 : 99; }

std::optional<I> ref_parse(std::string_view s, int radix, bool plus, bool minus, I mn, I mx)
{
    bool neg = false;
    if (!s.empty() && ((plus && s[0] == '+') || (minus && s[0] == '-'))) { neg = s[0] == '-'; s = s.substr(1); }
    if (s.empty()) return {};
    I v = 0;
    bool over = false;
    for (char c : s) {
        int d = digit(c);
        if (d >= radix) return {};
        if (!over) v = v * radix + d;
        if (v > (I(1) << 70)) over = true;
    }
    if (over) return {};
    if (neg) v = -v;
    if (v < mn || v > mx) return {};
    return v;
}
template<class C> std::basic_string<C> conv(std::string_view s) { std::basic_string<C> r; for (unsigned char c : s) r += C(c); return r; }

template<int radix, Sign sg, class C, class T> void parse_one(mc::Ctx& x, core::BasicIntegerParser<C>& p, std::string_view s, bool plus, bool minus)
{
    auto e = ref_parse(s, radix, plus, minus, lo<T>(), hi<T>());
    T v = T(1);
    bool g = p.template parse<radix, sg>(conv<C>(s), v);
    x.eval();
    if (__builtin_expect(g != e.has_value() || v != (e ? T(*e) : T(1)), 0))
        x.fail(mc::str("parse<", radix, ", sign mode ", int(sg), ">(", mc::esc(s), ", ", Name<T>::v, "): ", g, " ", istr(I(v)), ", expected ", e ? istr(*e) : "rejection"));
}
template<int radix, class C, class T> void parse_modes(mc::Ctx& x, core::BasicIntegerParser<C>& p, std::string_view s)
{
    constexpr bool sg = std::numeric_limits<T>::is_signed;
    parse_one<radix, Sign::auto_, C, T>(x, p, s, false, sg);
    parse_one<radix, Sign::accept, C, T>(x, p, s, true, true);
    parse_one<radix, Sign::accept_minus, C, T>(x, p, s, false, true);
    parse_one<radix, Sign::reject, C, T>(x, p, s, false, false);
}
template<int... R> struct Radices {
    static constexpr int n = sizeof...(R);
    template<class F> static void select(int i, F&& f) { int j = 0; ((j++ == i ? (f.template operator()<R>(), 0) : 0), ...); }
};
using PR = Radices<10, 2, 16, 8, 36, 3, 11>;
using CT = Types<char, wchar_t>;
using ST = Types<signed char, unsigned char, short, unsigned, long, unsigned long, bool, int, unsigned short, char>;

template<class C> struct Tools {
    std::locale loc = std::locale::classic();
    core::BasicCharMapper<C> mapper{loc};
    core::BasicIntegerFormatter<C> fmt{mapper};
    core::BasicIntegerParser<C> parser{mapper};
};

// formatting, then parsing back
template<class C, class T> void format_all(mc::Ctx& x, int radix)
{
    Tools<C> t;
    for (int lower = 0; lower < 2; ++lower) {
        core::BasicIntegerFormatter<C> fmt{t.mapper};
        if (lower) fmt.use_lowercase();
        for (T v : values<T>(x.thorough || sizeof(T) == 1))
            for (int md : { 1, 0, -1, 2, 5, 63, 64, 65, 66, 70, 130 }) {
                int m = md >= 0 ? md : core::int_max_digits<T>(radix);
                auto e = conv<C>(ref_format(I(v), radix, m, lower));
                auto g = fmt.format_a(v, radix, md);
                x.eval();
                MC_CHECK(x, g == e, "format_a(", Name<T>::v, " ", istr(I(v)), ", radix ", radix, ", ", md, ")");
                std::basic_string<C> h;
                bool have = true;
                switch (radix) {
                    case 10: h = fmt.format_dec(v, md); break;
                    case 2: h = fmt.format_bin(v, md); break;
                    case 8: h = fmt.format_oct(v, md); break;
                    case 16: h = fmt.format_hex(v, md); break;
                    case 3: h = fmt.template format<3>(v, md); break;
                    case 17: h = fmt.template format<17>(v, md); break;
                    case 36: h = fmt.template format<36>(v, md); break;
                    default: have = false;
                }
                if (have) MC_CHECK(x, h == e, "format<", radix, ">(", Name<T>::v, " ", istr(I(v)), ", ", md, ")");
            }
        mc::heartbeat();
    }
    bool threw = false;
    for (int bad : { -1, 0, 1, 37, 100 }) { try { t.fmt.format_a(T(1), bad); } catch (std::invalid_argument&) { threw = true; } MC_CHECK(x, threw, "unsupported radix accepted: ", bad); threw = false; }
}
mc::Scenario s1("format", 128, [](mc::Ctx& x) {
    int t = x.choose(ST::n), c = x.choose(CT::n), radix = 2 + x.choose(35);
    x.shard_point();
    MC_TRACE(x, "radix ", radix);
    ST::select(t, [&]<class T>() { CT::select(c, [&]<class C>() { format_all<C, T>(x, radix); }); });
});

// round trip and boundary strings
mc::Scenario s2("parse_boundary", 64, [](mc::Ctx& x) {
    int t = x.choose(ST::n), c = x.choose(CT::n), r = x.choose(PR::n);
    x.shard_point();
    ST::select(t, [&]<class T>() { CT::select(c, [&]<class C>() { PR::select(r, [&]<int radix>() {
        Tools<C> tl;
        MC_TRACE(x, Name<T>::v, " radix ", radix);
        auto go = [&](I v) {
            for (int z : { 0, 3 }) {
                std::string s = ref_format(v < 0 ? -v : v, radix, 1, false);
                s = std::string(z, '0') + s;
                for (const char* pre : { "", "-", "+" }) { parse_modes<radix, C, T>(x, tl.parser, pre + s);
                    std::string u = pre + s; for (char& ch : u) if (ch >= 'A') ch += 32; parse_modes<radix, C, T>(x, tl.parser, u); }
            }
        };
        for (T v : values<T>(true)) { go(I(v)); }
        for (int e = -40; e <= 40; ++e) { go(lo<T>() + e); go(hi<T>() + e); go(hi<T>() * radix + e); go(hi<T>() * 2 + e); }
        go((I(1) << 64) + 1); go(I(1) << 65);
        mc::heartbeat();
    }); }); });
});

// arbitrary strings
const char alpha[] = { '0', '1', '7', '8', '9', '-', '+', 'A', 'F', 'G', 'Z', 'a', 'z', ' ', '\0', '/', ':', '@', '[', '`', '{', '.', '\x7F', '\x80', '\xFF', 'x' };
mc::Scenario s3("parse_strings", 64, [](mc::Ctx& x) {
    int c = x.choose(2), r = x.choose(PR::n), first = x.choose(int(sizeof alpha));
    x.shard_point();
    CT::select(c, [&]<class C>() { PR::select(r, [&]<int radix>() {
        Tools<C> tl;
        int maxlen = x.thorough ? 4 : 3;
        std::vector<std::string> cur = { std::string(1, alpha[first]) };
        if (first == 0) cur.push_back("");
        for (int len = 1; len <= maxlen; ++len) {
            std::vector<std::string> nxt;
            for (auto& s : cur) {
                parse_modes<radix, C, signed char>(x, tl.parser, s);
                parse_modes<radix, C, unsigned char>(x, tl.parser, s);
                parse_modes<radix, C, int>(x, tl.parser, s);
                parse_modes<radix, C, bool>(x, tl.parser, s);
                if (len < maxlen) for (char a : alpha) nxt.push_back(s + a);
            }
            cur = std::move(nxt);
            mc::heartbeat();
        }
        MC_TRACE(x, "strings starting with ", int(alpha[first]));
    }); });
});
// every single character, every radix mentioned
mc::Scenario s4("parse_chars", 1, [](mc::Ctx& x) {
    Tools<char> tl;
    for (int a = 0; a < 256; ++a) for (std::string s : { std::string(1, char(a)), std::string("1") + char(a), std::string("-") + char(a) })
        for (int r = 0; r < PR::n; ++r) PR::select(r, [&]<int radix>() { parse_modes<radix, char, int>(x, tl.parser, s); });
    MC_TRACE(x, "all single characters");
});

// through streams and value parser
template<class T> void adaptors(mc::Ctx& x)
{
    core::ValueParser vp{std::locale::classic()};
    for (T v : values<T>(false)) {
        x.eval();
        auto out = [&](auto&& q) { std::ostringstream o; o.imbue(std::locale::classic()); o << q; return o.str(); };
        std::string d = ref_format(I(v), 10, 1, false), h = ref_format(I(v), 16, 1, false), b = ref_format(I(v), 2, 1, false), o = ref_format(I(v), 8, 1, false), y = ref_format(I(v), 7, 3, false);
        MC_CHECK(x, out(core::as_dec_int(v)) == d && out(core::as_hex_int(v)) == h && out(core::as_bin_int(v)) == b && out(core::as_oct_int(v)) == o && out(core::as_int<7>(v, 3)) == y && out(core::as_int_a(v, 7, 3)) == y, istr(I(v)));
        T w;
        w = T(1); MC_CHECK(x, vp.parse(d, core::as_dec_int(w)) && w == v, d);
        w = T(1); MC_CHECK(x, vp.parse(h, core::as_hex_int(w)) && w == v, h);
        w = T(1); MC_CHECK(x, vp.parse(b, core::as_bin_int(w)) && w == v, b);
        w = T(1); MC_CHECK(x, vp.parse(o, core::as_oct_int(w)) && w == v, o);
        w = T(1); std::istringstream in(h + " x"); in >> core::as_hex_int(w); MC_CHECK(x, bool(in) && w == v, h);
        if constexpr (sizeof(T) > 1) { w = T(1); MC_CHECK(x, vp.parse(d, w) && w == v, d); MC_CHECK(x, !vp.parse(d + "x", w) && !vp.parse(d + " ", w), d); }
        if constexpr (!std::numeric_limits<T>::is_signed) {
            w = T(1); MC_CHECK(x, vp.parse(d, core::as_flex_int(w)) && w == v, d);
            w = T(1); MC_CHECK(x, vp.parse("0x" + h, core::as_flex_int(w)) && w == v, h);
            w = T(1); MC_CHECK(x, vp.parse("0" + o, core::as_flex_int(w)) && w == v, o);
            MC_CHECK(x, out(core::as_flex_int(v)) == d && out(core::as_flex_int_h(v)) == "0x" + h, d);
        }
    }
    // values just out of range
    for (int e = 1; e <= 3; ++e) for (I v : { hi<T>() + e, lo<T>() - e }) {
        T w = T(1);
        std::string d = ref_format(v, 10, 1, false), h = ref_format(v, 16, 1, false);
        MC_CHECK(x, !vp.parse(d, core::as_dec_int(w)) && w == T(1) && !vp.parse(h, core::as_hex_int(w)) && w == T(1), d);
        if constexpr (sizeof(T) > 1) { MC_CHECK(x, !vp.parse(d, w), d); }
    }
}
mc::Scenario s5("adaptors", 8, [](mc::Ctx& x) {
    int t = x.choose(StdTypes::n);
    x.shard_point();
    StdTypes::select(t, [&]<class T>() { adaptors<T>(x); MC_TRACE(x, Name<T>::v); });
});

} // namespace
