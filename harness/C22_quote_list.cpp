// C22: quoting, list formatting/parsing, hexadecimal dumps, value parsing, enumeration names.
#include "mc.hpp"
#include <array>
#include <locale>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/span.hpp>
#include <archon/core/char_mapper.hpp>
#include <archon/core/as_int.hpp>
#include <archon/core/as_list.hpp>
#include <archon/core/enum.hpp>
#include <archon/core/hex_dump.hpp>
#include <archon/core/quote.hpp>
#include <archon/core/value_formatter.hpp>
#include <archon/core/value_parser.hpp>
using namespace archon;

namespace {

constexpr std::size_t npos = std::size_t(-1);

template<class C> std::basic_string<C> conv(std::string_view s) { std::basic_string<C> r; for (unsigned char c : s) r += C(c); return r; }
template<class C> std::string show(std::basic_string_view<C> s)
{
    std::string r;
    for (C c : s) {
        if (c >= 32 && c < 127) r += char(c);
        else { char b[32]; std::snprintf(b, sizeof b, "{%lx}", (unsigned long) std::make_unsigned_t<C>(c)); r += b; }
    }
    return r;
}
template<class C> std::string show(const std::basic_string<C>& s) { return show(std::basic_string_view<C>(s)); }

bool pr(long c) { return c >= 32 && c < 127; }
bool sp(long c) { return c == 32 || (c >= 9 && c <= 13); }
bool xd(long c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

template<class C> struct Token { std::basic_string<C> text; C value; bool hex; };
// Tokenize according to the rules for C string literals
template<class C> bool tokenize(std::basic_string_view<C> s, std::vector<Token<C>>& out)
{
    using U = std::make_unsigned_t<C>;
    std::size_t i = 0;
    while (i < s.size()) {
        std::size_t b = i;
        C v;
        bool hex = false;
        if (s[i] != C('\\')) v = s[i++];
        else {
            if (++i == s.size()) return false;
            C c = s[i++];
            if (c == C('x')) {
                unsigned long long n = 0;
                std::size_t k = i;
                while (i < s.size() && xd(long(s[i]))) {
                    n = n * 16 + (s[i] <= C('9') ? unsigned(s[i] - C('0')) : unsigned((s[i] | 32) - C('a')) + 10);
                    if (n > std::numeric_limits<U>::max()) return false;
                    ++i;
                }
                if (i == k) return false;
                v = C(U(n));
                hex = true;
            }
            else if (c >= C('0') && c <= C('7')) {
                unsigned n = unsigned(c - C('0'));
                for (int k = 0; k < 2 && i < s.size() && s[i] >= C('0') && s[i] <= C('7'); ++k) n = n * 8 + unsigned(s[i++] - C('0'));
                if (n > std::numeric_limits<U>::max()) return false;
                v = C(U(n));
            }
            else {
                const char* f = "abtnvfr\"'\\?";
                const char* t = "\a\b\t\n\v\f\r\"'\\?";
                int k = 0;
                while (f[k] && C(f[k]) != c) ++k;
                if (!f[k]) return false;
                v = C(t[k]);
            }
        }
        out.push_back({ std::basic_string<C>(s.substr(b, i - b)), v, hex });
    }
    return true;
}

template<class C> struct Fmt {
    std::array<C, 256> seed;
    core::BasicValueFormatter<C> f{ seed, std::locale::classic() };
    template<class V> std::basic_string<C> operator()(const V& v) { return std::basic_string<C>(f.format(v)); }
};

template<class C> void quote_case(mc::Ctx& x, Fmt<C>& fmt, std::basic_string_view<C> s)
{
    using S = std::basic_string<C>;
    for (int single = 0; single < 2; ++single) {
        C q = single ? C('\'') : C('"');
        auto name = single ? "quoted_s" : "quoted";
        S full = single ? fmt(core::quoted_s(s)) : fmt(core::quoted(s));
        x.eval();
        MC_CHECK(x, full.size() >= 2 && full.front() == q && full.back() == q, mc::str(name, "(", show(s), "): lacks quotes: ", show(full)));
        std::basic_string_view<C> inner = std::basic_string_view<C>(full).substr(1, full.size() - 2);
        for (C c : inner) MC_CHECK(x, pr(long(c)), mc::str(name, "(", show(s), "): nonprintable output: ", show(full)));
        std::vector<Token<C>> tk;
        bool ok = tokenize<C>(inner, tk) && tk.size() == s.size();
        bool fh = false;
        for (std::size_t i = 0; ok && i < s.size(); ++i) {
            bool special = !pr(long(s[i])) || s[i] == q || s[i] == C('\\') || (fh && xd(long(s[i])));
            ok = tk[i].value == s[i] && (tk[i].text.size() > 1) == special && !(tk[i].text.size() == 1 && tk[i].text[0] == q);
            fh = tk[i].hex;
        }
        MC_CHECK(x, ok, mc::str(name, "(", show(s), "): not the C literal of the string: ", show(full)));
        bool simple = !s.empty();
        std::size_t simple_prefix = 0;
        for (C c : s) {
            if (!pr(long(c)) || sp(long(c)) || c == q || c == C('\\')) { simple = false; break; }
            ++simple_prefix;
        }
        for (std::size_t m = 0; m <= full.size() + 2; ++m) {
            std::size_t max = m == full.size() + 2 ? npos : m;
            // Quoted form
            S qf;
            std::size_t qn;
            std::size_t adj = std::max<std::size_t>(max, 5);
            if (max == npos || full.size() <= adj) { qf = full; qn = s.size(); }
            else {
                std::size_t n = 0, size = 5;
                S p;
                while (n < tk.size() && size + tk[n].text.size() <= adj) { size += tk[n].text.size(); p += tk[n].text; ++n; }
                qf = q + p + S(3, C('.')) + q;
                qn = n;
            }
            S g = single ? fmt(core::quoted_s(s, max)) : fmt(core::quoted(s, max));
            x.eval(2);
            if (__builtin_expect(g != qf, 0)) x.fail(mc::str(name, "(", show(s), ", ", max, "): got ", show(g), ", expected ", show(qf)));
            // Unquoted form
            S uf;
            std::size_t un;
            std::size_t adj2 = std::max<std::size_t>(max, 3);
            if ((max == npos || s.size() <= adj2) && simple) { uf = S(s); un = s.size(); }
            else {
                un = max == npos ? simple_prefix : std::min(simple_prefix, adj2 - 3);
                uf = S(s.substr(0, un)) + S(3, C('.'));
            }
            bool unquoted;
            if (max == npos) unquoted = simple;
            else if (uf.size() <= max && qf.size() <= max) unquoted = !s.empty() && un >= qn;
            else unquoted = !s.empty() && (uf.size() < qf.size() || (uf.size() == qf.size() && un >= qn));
            const S& e = unquoted ? uf : qf;
            S g2 = single ? fmt(core::smart_quoted_s(s, max)) : fmt(core::smart_quoted(s, max));
            if (__builtin_expect(g2 != e, 0)) x.fail(mc::str("smart_", name, "(", show(s), ", ", max, "): got ", show(g2), ", expected ", show(e)));
        }
        // Null terminated strings
        if (s.find(C(0)) == s.npos) {
            S z(s);
            S a = single ? fmt(core::quoted_s(z.c_str(), 7)) : fmt(core::quoted(z.c_str(), 7));
            S b = single ? fmt(core::quoted_s(s, 7)) : fmt(core::quoted(s, 7));
            S c = single ? fmt(core::smart_quoted_s(z.c_str(), 6)) : fmt(core::smart_quoted(z.c_str(), 6));
            S d = single ? fmt(core::smart_quoted_s(s, 6)) : fmt(core::smart_quoted(s, 6));
            MC_CHECK(x, a == b && c == d, "string and null terminated string differ: " + show(s));
        }
    }
}

template<class C> void quote_scenario(mc::Ctx& x, const std::vector<C>& alpha, std::size_t len)
{
    Fmt<C> fmt;
    std::size_t n = std::size_t(x.choose(int(len + 1)));
    std::basic_string<C> s;
    // Leading characters are choices, the last two are enumerated in a loop
    std::size_t lead = n > 2 ? n - 2 : 0;
    for (std::size_t i = 0; i < lead; ++i) s += alpha[std::size_t(x.choose(int(alpha.size())))];
    std::size_t tail = n - lead;
    std::size_t count = 1;
    for (std::size_t i = 0; i < tail; ++i) count *= alpha.size();
    for (std::size_t k = 0; k < count; ++k) {
        std::basic_string<C> t = s;
        std::size_t z = k;
        for (std::size_t i = 0; i < tail; ++i) { t += alpha[z % alpha.size()]; z /= alpha.size(); }
        quote_case<C>(x, fmt, t);
    }
    x.state(mc::mix(n, mc::hash_bytes(s.data(), s.size() * sizeof(C))));
}

static mc::Scenario sc_quote("quote", 8, [](mc::Ctx& x) {
    static const std::vector<char> a = { 'a', 'G', '7', '8', ' ', '"', '\'', '\\', '\n', '\0', '\x7f', '\xff', '\t' };
    quote_scenario<char>(x, a, x.thorough ? 6 : 4);
});
static mc::Scenario sc_quote_w("quote-wide", 8, [](mc::Ctx& x) {
    static const std::vector<wchar_t> a = { L'a', L'G', L'7', L'8', L' ', L'"', L'\\', L'\n', L'\1', wchar_t(0x1ff), wchar_t(0x200), wchar_t(0x20ac), wchar_t(0xffffffffu) };
    quote_scenario<wchar_t>(x, a, x.thorough ? 6 : 4);
});
static mc::Scenario sc_quote_all("quote-every-character", 1, [](mc::Ctx& x) {
    // Every character alone, before a digit, and after a hexadecimal escape
    Fmt<char> f;
    Fmt<wchar_t> w;
    for (int i = 0; i < 256; ++i) {
        for (const char* t : { "", "0", "7", "8", "f", "g" }) {
            std::string s(1, char(i));
            quote_case<char>(x, f, s + t);
            quote_case<char>(x, f, t + s);
        }
    }
    for (long i = 0; i < 0x800; ++i) {
        for (const wchar_t* t : { L"", L"0", L"7", L"8", L"f", L"\x1234" }) {
            std::wstring s(1, wchar_t(i));
            quote_case<wchar_t>(x, w, s + t);
            quote_case<wchar_t>(x, w, t + s);
        }
    }
    // Field width applies to the whole
    for (int width = 0; width < 16; ++width) for (bool left : { false, true }) for (std::string s : { "", "a", "a b", "\x01\x02" }) {
        std::ostringstream o1, o2, o3;
        o1 << core::quoted(std::string_view(s));
        o2 << core::smart_quoted(std::string_view(s));
        for (int k = 0; k < 2; ++k) {
            std::string e = k ? o2.str() : o1.str();
            std::string pad(std::size_t(std::max(0, width - int(e.size()))), '*');
            std::ostringstream o;
            o.fill('*');
            o.width(width);
            if (left) o.setf(std::ios_base::left, std::ios_base::adjustfield);
            if (k) o << core::smart_quoted(std::string_view(s)); else o << core::quoted(std::string_view(s));
            MC_CHECK(x, o.str() == (left ? e + pad : pad + e) && o.width() == 0, "field width not respected: " + o.str());
        }
    }
});

// ---------------------------------------------------------------- lists

using Space = core::AsListSpace;

std::string sep_str(const core::AsListConfig& c)
{
    bool after = c.space == Space::auto_ ? c.separator != ' ' : (c.space == Space::tight || c.space == Space::loose);
    return std::string(1, c.separator) + (after ? " " : "");
}
std::string ref_list(const std::vector<std::string>& e, const core::AsListConfig& c)
{
    std::string r;
    bool loose = c.space == Space::loose && !e.empty();
    if (c.bracketed) { r += c.opening_bracket; if (loose) r += ' '; }
    for (std::size_t i = 0; i < e.size(); ++i) { if (i) r += sep_str(c); r += e[i]; }
    if (c.bracketed) { if (loose) r += ' '; r += c.closing_bracket; }
    return r;
}
std::optional<int> ref_int(std::string_view s)
{
    bool neg = false;
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
    if (s.empty()) return {};
    int v = 0;
    for (char c : s) { if (c < '0' || c > '9') return {}; v = v * 10 + (c - '0'); }
    return neg ? -v : v;
}
// Splits into elements. Returns false if the string as a whole is not a list
bool ref_split(std::string_view s, const core::AsListConfig& c, std::vector<std::string>& e)
{
    bool allow = c.space != Space::none;
    if (c.bracketed) {
        if (s.size() < 2 || s.front() != c.opening_bracket || s.back() != c.closing_bracket) return false;
        s = s.substr(1, s.size() - 2);
        if (allow) {
            while (!s.empty() && s.front() == ' ') s.remove_prefix(1);
            while (!s.empty() && s.back() == ' ') s.remove_suffix(1);
        }
    }
    for (;;) {
        std::size_t j = s.find(c.separator);
        e.push_back(std::string(s.substr(0, j)));
        if (j == s.npos) break;
        s.remove_prefix(j + 1);
        if (allow) while (!s.empty() && s.front() == ' ') s.remove_prefix(1);
    }
    return true;
}

core::AsListConfig pick_config(mc::Ctx& x)
{
    core::AsListConfig c;
    c.space = Space(x.choose(5));
    c.separator = x.pick({ ',', ' ', ';' });
    switch (x.choose(5)) {
        case 0: break;
        case 1: c.bracketed = true; break;
        case 2: c.bracketed = true; c.opening_bracket = '('; c.closing_bracket = ')'; break;
        case 3: c.bracketed = true; c.opening_bracket = '{'; c.closing_bracket = '}'; break;
        case 4: c.bracketed = true; c.opening_bracket = '<'; c.closing_bracket = '>'; break;
    }
    return c;
}
std::string cfg(const core::AsListConfig& c) { return mc::str("separator '", c.separator, "' bracketed ", c.bracketed, " space mode ", int(c.space)); }

template<class C> void check_parse(mc::Ctx& x, core::BasicValueParser<C>& p, std::string_view s, const core::AsListConfig& c, std::size_t n)
{
    // n is the size of the target sequence (elements initially 77)
    std::vector<std::string> parts;
    bool list = ref_split(s, c, parts);
    std::vector<int> e;
    if (list) {
        for (auto& q : parts) { if (auto v = ref_int(q)) e.push_back(*v); else { list = false; break; } }
    }
    bool empty_content = ref_split(s, c, parts = {}) && parts.size() == 1 && parts[0].empty();
    auto str = conv<C>(s);
    auto info = [&](const char* w) { return mc::str(w, " with ", n, " elements, ", cfg(c), ", parsing \"", s, "\": "); };
    auto vec = [](const std::vector<int>& v) { std::string r; for (int i : v) r += mc::str(i, ' '); return r; };
    x.eval(4);
    {
        std::vector<int> v(n, 77);
        bool g = p.parse(str, core::as_list(v, c));
        bool w = n == 0 ? empty_content : list && e.size() == n;
        MC_CHECK(x, g == w && (!g || n == 0 || v == e), info("as_list") + mc::str(g, " ", vec(v), ", expected ", w, " ", vec(e)));
    }
    {
        std::vector<int> v(n, 77);
        bool g = p.parse(str, core::as_list(v, [](int& i) -> int& { return i; }, c));
        bool w = n == 0 ? empty_content : list && e.size() == n;
        MC_CHECK(x, g == w && (!g || n == 0 || v == e), info("as_list with function") + mc::str(g, " ", vec(v), ", expected ", w, " ", vec(e)));
    }
    for (int copy = 0; copy < 2; ++copy) {
        std::vector<int> v(n, 77);
        bool g = p.parse(str, core::as_list_a(v, 1, copy == 1, c));
        bool w = n == 0 ? empty_content : list && e.size() <= n;
        std::vector<int> f = e;
        if (w && n) f.resize(n, copy ? e.back() : 0);
        MC_CHECK(x, g == w && (!g || n == 0 || v == f), info("as_list_a") + mc::str(g, " ", vec(v), ", expected ", w, " ", vec(f)));
    }
    {
        std::vector<int> v(n, 77);
        std::size_t k = 55;
        bool g = p.parse(str, core::as_list_v(v, k, c));
        bool w = n == 0 ? empty_content : list && e.size() <= n;
        std::vector<int> f = e;
        f.resize(n, 77);
        if (n == 0 || !empty_content) // Whether no elements can be parsed into a nonempty sequence is left open
            MC_CHECK(x, g == w && (!g || n == 0 || (v == f && k == e.size())), info("as_list_v") + mc::str(g, " ", vec(v), " n=", k, ", expected ", w, " ", vec(f)));
        if (n == 0 && g) MC_CHECK(x, k == 0, info("as_list_v") + mc::str("n=", k));
    }
}

template<class C> void list_roundtrip(mc::Ctx& x)
{
    auto c = pick_config(x);
    x.shard_point();
    Fmt<C> fmt;
    core::BasicValueParser<C> p(std::locale::classic());
    const int vals[] = { 0, 1, -7, 120 };
    int max = x.thorough ? 5 : 4;
    for (int n = 0; n <= max; ++n) {
        int count = 1;
        for (int i = 0; i < n; ++i) count *= 4;
        for (int k = 0; k < count; ++k) {
            std::vector<int> v;
            std::vector<std::string> s;
            int z = k;
            for (int i = 0; i < n; ++i) { v.push_back(vals[z % 4]); s.push_back(std::to_string(v.back())); z /= 4; }
            std::string e = ref_list(s, c);
            auto chk = [&](const char* w, const std::basic_string<C>& g, const std::string& e) {
                x.eval();
                if (__builtin_expect(g != conv<C>(e), 0)) x.fail(mc::str(w, ", ", cfg(c), ": got \"", show(g), "\", expected \"", e, "\""));
            };
            chk("as_list", fmt(core::as_list(v, c)), e);
            auto func = [](const int& i) { return core::as_int(i); };
            chk("as_list with function", fmt(core::as_list(v, func, c)), e);
            if (c.space == Space::auto_ && c.separator == ',' && c.bracketed) {
                if (c.opening_bracket == '[') chk("as_sbr_list", fmt(core::as_sbr_list(v)), e);
                if (c.opening_bracket == '(') chk("as_rbr_list", fmt(core::as_rbr_list(v)), e);
                if (c.opening_bracket == '{') chk("as_cbr_list", fmt(core::as_cbr_list(v)), e);
                if (c.opening_bracket == '<') chk("as_abr_list", fmt(core::as_abr_list(v)), e);
            }
            if (c.space == Space::auto_ && c.separator == ' ' && !c.bracketed) chk("as_words", fmt(core::as_words(v)), e);
            for (std::size_t k2 = 0; k2 <= v.size() + 1; ++k2) {
                std::size_t m = k2;
                std::vector<std::string> t = s;
                t.resize(std::min(k2, s.size()));
                chk("as_list_v", fmt(core::as_list_v(v, m, c)), ref_list(t, c));
                chk("as_list_v with function", fmt(core::as_list_v(v, func, m, c)), ref_list(t, c));
                for (int copy = 0; copy < 2; ++copy) {
                    std::size_t lim = std::max<std::size_t>(k2, 1), q = v.size();
                    while (q > lim && v[q - 1] == (copy ? v[q - 2] : 0)) --q;
                    t = s;
                    t.resize(q);
                    std::string w = ref_list(t, c);
                    chk("as_list_a", fmt(core::as_list_a(v, k2, copy == 1, c)), w);
                    chk("as_list_a with function", fmt(core::as_list_a(v, k2, copy == 1, func, c)), w);
                    std::vector<int> r(v.size(), 77);
                    MC_CHECK(x, p.parse(conv<C>(w), core::as_list_a(r, k2, copy == 1, c)) && r == v, mc::str("as_list_a is not restored: \"", w, "\", ", cfg(c)));
                }
            }
            for (std::size_t size = 0; size <= v.size() + 1; ++size) check_parse<C>(x, p, e, c, size);
            // Strings as elements
            std::vector<std::basic_string<C>> a, b(v.size(), conv<C>("?"));
            for (auto& q : s) a.push_back(conv<C>(q == "0" ? "" : q == "1" ? "x.y" : q));
            bool lossy = (c.separator == ' ' && c.space != Space::none); // Empty words vanish
            for (auto& q : a) if (q.empty()) lossy = lossy || false;
            bool has_empty = false;
            for (auto& q : a) has_empty = has_empty || q.empty();
            bool ok = p.parse(fmt(core::as_list(a, c)), core::as_list(b, c));
            if (!(has_empty && (lossy || c.space != Space::none))) MC_CHECK(x, ok && a == b, mc::str("list of strings is not restored, ", cfg(c), ": \"", show(fmt(core::as_list(a, c))), "\""));
        }
    }
    x.state(mc::hash_str(cfg(c)));
}
static mc::Scenario sc_list("list", 8, [](mc::Ctx& x) { list_roundtrip<char>(x); });
static mc::Scenario sc_list_w("list-wide", 8, [](mc::Ctx& x) { list_roundtrip<wchar_t>(x); });

static mc::Scenario sc_list_parse("list-parse", 8, [](mc::Ctx& x) {
    auto c = pick_config(x);
    if (c.bracketed && c.opening_bracket != '[') x.prune();
    x.shard_point();
    core::BasicValueParser<char> p(std::locale::classic());
    const char al[] = { '1', '2', '-', ' ', c.separator, '[', ']' };
    int na = 7;
    int max = x.thorough ? 7 : 5;
    for (int n = 0; n <= max; ++n) {
        long count = 1;
        for (int i = 0; i < n; ++i) count *= na;
        for (long k = 0; k < count; ++k) {
            std::string s;
            long z = k;
            for (int i = 0; i < n; ++i) { s += al[z % na]; z /= na; }
            std::string t = c.bracketed && c.space != Space::none && n < max - 1 ? s : s;
            for (std::size_t size = 0; size < 4; ++size) check_parse<char>(x, p, t, c, size);
            if (c.bracketed) for (std::size_t size = 0; size < 4; ++size) check_parse<char>(x, p, "[" + s + "]", c, size);
        }
    }
    x.state(mc::hash_str(cfg(c)));
});

// ---------------------------------------------------------------- hexadecimal dump

template<class C, class I> void dump_type(mc::Ctx& x, const char* tn)
{
    using U = std::make_unsigned_t<I>;
    const I vals[] = { I(0), I(1), I(0x1F), std::numeric_limits<I>::max(), I(U(-1)), std::numeric_limits<I>::min() };
    int digits = x.pick({ -1, 0, 1, 2, 3, 9 });
    std::string sep = x.pick({ std::string(" "), std::string(""), std::string(", "), std::string("12345") });
    x.shard_point();
    Fmt<C> fmt;
    int max = x.thorough ? 5 : 3;
    for (int n = 0; n <= max; ++n) {
        int count = 1;
        for (int i = 0; i < n; ++i) count *= 6;
        for (int k = 0; k < count; ++k) {
            std::vector<I> v;
            std::vector<std::string> s;
            int z = k;
            std::string full;
            for (int i = 0; i < n; ++i) {
                v.push_back(vals[z % 6]);
                z /= 6;
                char b[64];
                std::snprintf(b, sizeof b, "%llX", (unsigned long long) U(v.back()));
                std::string t = b;
                std::size_t w = digits <= 0 ? sizeof(I) * 2 : std::size_t(digits);
                while (t.size() < w) t = "0" + t;
                if (i) t = sep + t;
                s.push_back(t);
                full += t;
            }
            for (std::size_t m = 0; m <= full.size() + 2; ++m) {
                std::size_t ms = m == full.size() + 2 ? npos : m;
                std::string e = full;
                if (ms != npos && full.size() > std::max<std::size_t>(ms, 3)) {
                    std::size_t lim = std::max<std::size_t>(ms, 3) - 3;
                    e.clear();
                    for (auto& t : s) { if (e.size() + t.size() > lim) break; e += t; }
                    e += "...";
                }
                core::HexDumpConfig cf;
                cf.min_digits = digits;
                cf.max_size = ms;
                auto sep_c = conv<C>(sep);
                std::basic_string_view<C> sv(sep_c);
                auto g = fmt(core::as_hex_dump(v, sv, cf));
                std::basic_ostringstream<C> o;
                o.imbue(std::locale::classic());
                core::hex_dump(o, std::as_const(v), sv, cf);
                bool ok = g == conv<C>(e) && o.str() == g;
                if (sep == " ") {
                    std::basic_ostringstream<C> o2;
                    core::hex_dump(o2, std::as_const(v), cf);
                    ok = ok && fmt(core::as_hex_dump(v, cf)) == g && o2.str() == g;
                }
                x.eval();
                if (__builtin_expect(!ok, 0)) x.fail(mc::str("hex dump of ", tn, "s \"", full, "\" with max size ", ms, " min digits ", digits, ": got \"", show(g), "\" / \"", show(o.str()), "\", expected \"", e, "\""));
            }
        }
    }
    x.state(mc::mix(mc::hash_str(sep), std::uint64_t(digits) * 31 + sizeof(I) * 3 + sizeof(C)));
}
static mc::Scenario sc_dump("hex-dump", 8, [](mc::Ctx& x) {
    switch (x.choose(7)) {
        case 0: dump_type<char, char>(x, "char"); break;
        case 1: dump_type<char, unsigned char>(x, "unsigned char"); break;
        case 2: dump_type<wchar_t, signed char>(x, "signed char"); break;
        case 3: dump_type<char, short>(x, "short"); break;
        case 4: dump_type<char, unsigned>(x, "unsigned"); break;
        case 5: dump_type<char, long>(x, "long"); break;
        case 6: dump_type<char, unsigned long>(x, "unsigned long"); break;
    }
});

// ---------------------------------------------------------------- value parser

template<class T, class C> void parse_val(mc::Ctx& x, core::BasicValueParser<C>& p, const std::string& s, const char* tn)
{
    T v = T(1);
    bool g = p.parse(conv<C>(s), v);
    std::optional<long> e;
    bool ok = !s.empty() && s.size() < 18;
    std::size_t i = 0;
    if (ok && (s[0] == '-' || s[0] == '+')) i = 1;
    ok = ok && i < s.size();
    for (std::size_t k = i; ok && k < s.size(); ++k) ok = s[k] >= '0' && s[k] <= '9';
    if (ok && std::is_unsigned_v<T> && s[0] == '-') ok = false;
    if (ok) {
        long l = std::strtol(s.c_str(), nullptr, 10);
        if (l >= long(std::numeric_limits<T>::min()) && (std::is_same_v<T, unsigned long> || l <= long(std::numeric_limits<T>::max()))) e = l;
    }
    x.eval();
    if (__builtin_expect(g != e.has_value() || (g && v != T(*e)), 0)) x.fail(mc::str("parsing \"", s, "\" as ", tn, ": ", g, " ", long(v)));
}
static mc::Scenario sc_value("value-parser", 8, [](mc::Ctx& x) {
    const char al[] = { '0', '1', '9', '6', '-', '+', ' ', 'x', 'a', '.', '\0' };
    char first = x.pick(al);
    x.shard_point();
    core::ValueParser p(std::locale::classic());
    core::WideValueParser w(std::locale::classic());
    int max = x.thorough ? 6 : 5;
    for (int n = 0; n < max; ++n) {
        long count = 1;
        for (int i = 0; i < n; ++i) count *= 11;
        for (long k = 0; k < count; ++k) {
            std::string s(1, first);
            if (n == 0 && first == '0') s.clear();
            long z = k;
            for (int i = 0; i < n; ++i) { s += al[z % 11]; z /= 11; }
            parse_val<int>(x, p, s, "int");
            parse_val<short>(x, p, s, "short");
            parse_val<unsigned>(x, p, s, "unsigned");
            parse_val<unsigned short>(x, w, s, "unsigned short");
            parse_val<long>(x, w, s, "long");
            parse_val<unsigned long>(x, p, s, "unsigned long");
            std::string t = "zz";
            MC_CHECK(x, p.parse(s, t) && t == s, "string is not copied");
            std::wstring t2 = L"zz";
            MC_CHECK(x, w.parse(conv<wchar_t>(s), t2) && t2 == conv<wchar_t>(s), "wide string is not copied");
            char c = '?';
            MC_CHECK(x, p.parse(s, c) == (s.size() == 1) && (s.size() != 1 || c == s[0]), "character: " + mc::esc(s));
        }
    }
    for (int d = -3; d <= 3; ++d) for (long b : { 32767L, -32768L, 65535L, 2147483647L, -2147483648L, 4294967295L, 0L }) {
        std::string s = std::to_string(b + d);
        parse_val<int>(x, p, s, "int");
        parse_val<short>(x, p, s, "short");
        parse_val<unsigned>(x, p, s, "unsigned");
        parse_val<unsigned short>(x, w, s, "unsigned short");
        parse_val<long>(x, w, s, "long");
    }
    x.state(std::uint64_t(first));
});

// ---------------------------------------------------------------- enumerations

enum class Col { red = 3, ruby = -1, ab = 0, Bz = 7, r_1 = 100, none = 55 };
struct ColSpec {
    static constexpr core::EnumAssoc map[] = { { int(Col::red), "red" }, { int(Col::ruby), "r" }, { int(Col::ab), "aB" }, { int(Col::Bz), "b" }, { int(Col::r_1), "r_1" } };
};
struct DupValue { static constexpr core::EnumAssoc map[] = { { 1, "a" }, { 1, "b" } }; };
struct DupName { static constexpr core::EnumAssoc map[] = { { 1, "a" }, { 2, "a" } }; };
struct DupCase { static constexpr core::EnumAssoc map[] = { { 1, "a" }, { 2, "A" } }; };

template<class C, bool ic> void enum_case(mc::Ctx& x, const std::string& s)
{
    using E = core::Enum<Col, ColSpec, ic>;
    auto low = [](std::string t) { for (char& c : t) if (ic && c >= 'A' && c <= 'Z') c = char(c + 32); return t; };
    std::optional<Col> e;
    for (auto& a : ColSpec::map) if (low(a.name) == low(s)) e = Col(a.value);
    Col v = Col::none;
    bool g = E::parse(s, v);
    x.eval();
    MC_CHECK(x, g == e.has_value() && v == (e ? *e : Col::none), mc::str("enumeration parse of \"", s, "\" gave ", g, " ", int(v)));
    // From stream: longest sequence of alphanumeric characters and underscore, rest not consumed
    std::size_t b = 0;
    while (b < s.size() && sp(s[b])) ++b;
    std::size_t z = b;
    while (z < s.size() && (std::isalnum((unsigned char) s[z]) || s[z] == '_')) ++z;
    std::string tok = s.substr(b, z - b);
    std::optional<Col> es;
    for (auto& a : ColSpec::map) if (!tok.empty() && low(a.name) == low(tok)) es = Col(a.value);
    std::basic_istringstream<C> in(conv<C>(s));
    in.imbue(std::locale::classic());
    E f = Col::none;
    in >> f;
    bool ok = !in.fail() == es.has_value() && Col(f) == (es ? *es : Col::none);
    if (ok && es) {
        in.clear();
        std::basic_string<C> rest;
        for (;;) { auto c = in.get(); if (c == std::char_traits<C>::eof()) break; rest += C(c); }
        ok = rest == conv<C>(s.substr(z));
    }
    MC_CHECK(x, ok, mc::str("enumeration read from stream \"", s, "\" gave ", int(Col(f))));
    core::BasicValueParser<C> p(std::locale::classic());
    E h = Col::none;
    bool k = p.parse(conv<C>(s), h);
    MC_CHECK(x, k == e.has_value() && (!k || Col(h) == *e), mc::str("value parser, enumeration \"", s, "\" gave ", k, " ", int(Col(h))));
}
static mc::Scenario sc_enum("enumeration", 8, [](mc::Ctx& x) {
    const char al[] = { 'r', 'e', 'd', 'a', 'B', 'b', '_', '1', ' ', '-', 'R' };
    char first = x.pick(al);
    x.shard_point();
    int max = x.thorough ? 5 : 4;
    for (int n = 0; n < max; ++n) {
        long count = 1;
        for (int i = 0; i < n; ++i) count *= 11;
        for (long k = 0; k < count; ++k) {
            std::string s(1, first);
            long z = k;
            for (int i = 0; i < n; ++i) { s += al[z % 11]; z /= 11; }
            enum_case<char, false>(x, s);
            enum_case<char, true>(x, s);
            enum_case<wchar_t, false>(x, s);
            enum_case<wchar_t, true>(x, s);
        }
    }
    for (int i = -3; i < 120; ++i) {
        using E = core::Enum<Col, ColSpec>;
        E v = Col(i);
        std::string_view name;
        bool k = v.name(name);
        const char* e = nullptr;
        for (auto& a : ColSpec::map) if (a.value == i) e = a.name;
        std::string out = e ? e : std::to_string(i);
        std::ostringstream o;
        o << v;
        std::wostringstream w;
        w << v;
        bool thrown = false;
        try { MC_CHECK(x, v.name() == out, "name"); } catch (const std::out_of_range&) { thrown = true; }
        MC_CHECK(x, k == (e != nullptr) && (!k || name == e) && thrown == !k && o.str() == out && w.str() == conv<wchar_t>(out), mc::str("enumeration value ", i, " is shown as ", o.str()));
        for (int width = 0; width < 12; ++width) {
            std::ostringstream q;
            q.width(width);
            q << v;
            MC_CHECK(x, q.str() == std::string(std::size_t(std::max(0, width - int(out.size()))), ' ') + out, "field width");
        }
    }
    auto dup = [&](auto f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; };
    std::string_view nm;
    MC_CHECK(x, dup([&] { core::Enum<Col, DupValue>(Col::red).name(nm); }), "duplicate value accepted");
    MC_CHECK(x, dup([&] { core::Enum<Col, DupName>(Col::red).name(nm); }), "duplicate name accepted");
    MC_CHECK(x, (dup([&] { core::Enum<Col, DupCase, true>(Col::red).name(nm); })), "duplicate name (ignoring case) accepted");
    MC_CHECK(x, (!dup([&] { core::Enum<Col, DupCase>(Col::red).name(nm); })), "names differing in case rejected");
    x.state(std::uint64_t(first));
});

} // namespace
