// C23: parameterized strings, string templates, splitting and trimming of strings.
#include "mc.hpp"
#include <array>
#include <functional>
#include <locale>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/span.hpp>
#include <archon/core/char_mapper.hpp>
#include <archon/core/format.hpp>
#include <archon/core/format_as.hpp>
#include <archon/core/format_with.hpp>
#include <archon/core/formattable_value_ref.hpp>
#include <archon/core/string.hpp>
#include <archon/core/string_formatter.hpp>
#include <archon/core/string_template.hpp>
#include <archon/core/with_modified_locale.hpp>
using namespace archon;

namespace {

template<class C> std::basic_string<C> conv(std::string_view s) { std::basic_string<C> r; for (unsigned char c : s) r += C(c); return r; }
template<class C> std::string show(const std::basic_string<C>& s) { std::string r; for (C c : s) r += char(c); return r; }

template<class F> void all_strings(std::string_view prefix, std::string_view alpha, int n, F f)
{
    long count = 1;
    for (int i = 0; i < n; ++i) count *= long(alpha.size());
    for (long k = 0; k < count; ++k) {
        std::string s(prefix);
        long z = k;
        for (int i = 0; i < n; ++i) { s += alpha[std::size_t(z) % alpha.size()]; z /= long(alpha.size()); }
        f(s);
    }
}

// ---------------------------------------------------------------- format()

std::optional<std::string> ref_format(std::string_view s, const std::vector<std::string>& params)
{
    std::string r;
    std::size_t p = 0;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '%') { r += s[i]; continue; }
        if (++i == s.size()) return {};
        if (s[i] == '%') r += '%';
        else if (s[i] == 's') { if (p == params.size()) return {}; r += params[p++]; }
        else return {};
    }
    if (p != params.size()) return {};
    return r;
}

struct Grouped : std::numpunct<char> {
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3"; }
};

template<class C, class... P> void format_case(mc::Ctx& x, core::BasicStringFormatter<C>& sf, const std::string& s, const std::vector<std::string>& pv, const P&... p)
{
    auto e = ref_format(s, pv);
    auto ws = conv<C>(s);
    std::basic_string_view<C> sv(ws);
    int what = 0;
    auto one = [&](auto f) {
        std::optional<std::string> g;
        try { g = show<C>(f()); } catch (const core::BadFormatString&) {}
        x.eval();
        if (__builtin_expect(g != e, 0)) x.fail(mc::str("format variant ", what, " with ", pv.size(), " parameters of \"", s, "\": ", g ? "\"" + *g + "\"" : "rejected", ", expected ", e ? "\"" + *e + "\"" : "rejection"));
        ++what;
    };
    using S = std::basic_string<C>;
    std::locale loc = std::locale::classic();
    one([&] { return core::format(sv, p...); });
    if constexpr (std::is_same_v<C, char>) one([&] { return core::format(s.c_str(), p...); });
    one([&] { return core::format(loc, sv, p...); });
    if constexpr (std::is_same_v<C, char>) one([&] { return core::format(loc, s.c_str(), p...); });
    one([&] { std::basic_ostringstream<C> o; core::format(o, sv, p...); return o.str(); });
    one([&] { std::basic_ostringstream<C> o; core::format(o, s.c_str(), p...); return o.str(); });
    one([&] { return S(sf.format(sv, p...)); });
    one([&] { return S(sf.format(s.c_str(), p...)); });
    auto put = [&](auto&& v) { std::basic_ostringstream<C> o; o << v; return o.str(); };
    one([&] { return put(core::formatted(sv, p...)); });
    one([&] { return put(core::formatted(s.c_str(), p...)); });
    one([&] { return put(core::formatted_wrn(sv, p...)); });
    one([&] { return put(core::formatted_wrn(s.c_str(), p...)); });
    one([&] {
        core::BasicFormattableValueRef<C> buf[sizeof...(p) + 1];
        core::BasicFormattableValueRef<C>::record(buf, p...);
        std::basic_ostringstream<C> o;
        core::format_alt(o, sv, core::Span<const core::BasicFormattableValueRef<C>>(buf, sizeof...(p)));
        return o.str();
    });
    one([&] {
        core::BasicFormattableValueRef<C> buf[sizeof...(p) + 1];
        core::BasicFormattableValueRef<C>::record(buf, p...);
        std::basic_ostringstream<C> o;
        core::format_alt(o, s.c_str(), core::Span<const core::BasicFormattableValueRef<C>>(buf, sizeof...(p)));
        return o.str();
    });
    // As a single field, nested, and followed by more output
    if (e) {
        for (int width : { 0, 3, 9 }) for (int k = 0; k < 4; ++k) {
            std::basic_ostringstream<C> o;
            o.fill(C('.'));
            o.width(width);
            if (k == 0) o << core::formatted(sv, p...);
            if (k == 1) o << core::formatted(s.c_str(), p...);
            if (k == 2) o << core::formatted_wrn(sv, p...);
            if (k == 3) o << core::formatted("%s", core::formatted(sv, p...));
            o << C('!');
            std::string w = std::string(std::size_t(std::max(0, width - int(e->size()))), '.') + *e + "!";
            x.eval();
            if (__builtin_expect(show<C>(o.str()) != w, 0)) x.fail(mc::str("format of \"", s, "\" with field width ", width, " variant ", k, ": got \"", show<C>(o.str()), "\", expected \"", w, "\""));
        }
    }
}
template<class C> void format_scenario(mc::Ctx& x)
{
    static const char al[] = { '%', 's', 'a', ' ' };
    char a = x.pick(al), b = x.pick(al);
    x.shard_point();
    core::BasicStringFormatter<C> sf(std::locale::classic());
    const int v1 = 17;
    const std::basic_string<C> v2 = conv<C>("%s%");
    const C v3 = C('z');
    auto run = [&](const std::string& s) {
        format_case<C>(x, sf, s, {});
        format_case<C>(x, sf, s, { "17" }, v1);
        format_case<C>(x, sf, s, { "%s%" }, v2);
        format_case<C>(x, sf, s, { "17", "%s%" }, v1, v2);
        format_case<C>(x, sf, s, { "z", "17", "%s%" }, v3, v1, v2);
    };
    if (a == '%' && b == '%') { run(""); for (char c : al) run(std::string(1, c)); }
    for (int n = 0; n <= (x.thorough ? 5 : 4); ++n) all_strings(std::string{ a, b }, std::string_view(al, 4), n, run);
    x.state(mc::mix(std::uint64_t(a), std::uint64_t(b)));
}
static mc::Scenario sc_format("format", 16, [](mc::Ctx& x) { format_scenario<char>(x); });
static mc::Scenario sc_format_w("format-wide", 16, [](mc::Ctx& x) { format_scenario<wchar_t>(x); });

static mc::Scenario sc_misc("format-values", 1, [](mc::Ctx& x) {
    std::locale g(std::locale::classic(), new Grouped);
    std::ostringstream o;
    o.imbue(g);
    o << 1234567 << " " << core::formatted("%s", 1234567) << " " << core::formatted_wrn("%s", 1234567) << " " << core::with_reverted_numerics(1234567) << " " << 1234567;
    MC_CHECK(x, o.str() == "1'234'567 1'234'567 1234567 1234567 1'234'567", "reverted numerics: " + o.str());
    MC_CHECK(x, core::format(g, std::string_view("%s"), 1234567) == "1'234'567", "locale is not used");
    for (int w = 0; w < 8; ++w) {
        std::ostringstream p;
        p.width(w);
        p << core::with_reverted_numerics(12) << "|";
        p << core::with_width(34, w) << "|" << core::with_precision(1.23456, 3) << "|" << core::with_fixed(2.0, 2) << "|" << 1.23456;
        std::string pad(std::size_t(std::max(0, w - 2)), ' ');
        MC_CHECK(x, p.str() == pad + "12|" + pad + "34|1.23|2.00|1.23456", "modified stream properties, width " + std::to_string(w) + ": " + p.str());
    }
    auto ord = [&](auto v) {
        long l = long(v), a = l < 0 ? -l : l;
        const char* sfx = a % 10 == 1 && a % 100 != 11 ? "st" : a % 10 == 2 && a % 100 != 12 ? "nd" : a % 10 == 3 && a % 100 != 13 ? "rd" : "th";
        std::string e = std::to_string(l) + sfx;
        std::ostringstream q;
        q << core::as_ordinal(v);
        std::wostringstream w;
        w.width(9);
        w << core::as_ordinal(v);
        x.eval();
        MC_CHECK(x, q.str() == e && w.str() == conv<wchar_t>(std::string(std::size_t(std::max(0, 9 - int(e.size()))), ' ') + e), mc::str("ordinal of ", l, ": ", q.str()));
    };
    for (int i = -1300; i <= 1300; ++i) { ord(i); ord(short(i)); ord(long(i)); if (i >= 0) { ord(unsigned(i)); } if (i >= -128 && i < 128) ord((signed char)(i)); if (i >= 0 && i < 256) ord((unsigned char)(i)); }
    ord(std::numeric_limits<int>::min());
    ord(std::numeric_limits<int>::max());
    for (int i = -5; i <= 5; ++i) {
        std::ostringstream q;
        q.width(10);
        q << core::as_num_of(i, { "car", "cars" });
        std::string e = std::to_string(i) + (i == 1 || i == -1 ? " car" : " cars");
        MC_CHECK(x, q.str() == std::string(10 - e.size(), ' ') + e, "number of: " + q.str());
        std::optional<int> v;
        if (i) v = i;
        std::ostringstream r;
        r << core::as_optional(v, "none");
        MC_CHECK(x, r.str() == (i ? std::to_string(i) : "none"), "optional: " + r.str());
        std::ostringstream t;
        t.width(6);
        t << core::as_format_func([&](std::ostream& o) { o << i << i; });
        std::string e2 = std::to_string(i) + std::to_string(i);
        MC_CHECK(x, t.str() == std::string(6 - e2.size(), ' ') + e2, "format function: " + t.str());
    }
    for (int n = 0; n <= 6; ++n) for (int num = 0; num <= 64; ++num) {
        // Exactly representable fractions
        std::ostringstream q;
        q << core::as_percent(num / 32.0, n);
        long m = 100;
        for (int i = 0; i < n; ++i) m *= 10;
        long t = num * m / 32; // floor
        long d = m / 100;
        char b[64];
        if (n) std::snprintf(b, sizeof b, "%ld.%0*ld%%", t / d, n, t % d); else std::snprintf(b, sizeof b, "%ld%%", t);
        MC_CHECK(x, q.str() == b, mc::str("percent of ", num, "/32 with ", n, " decimals: ", q.str(), ", expected ", b));
    }
    x.state(1);
});

// ---------------------------------------------------------------- templates

struct Ctx1 { int y; };
struct RefPart { std::string text; int param; }; // -1: text, else parameter index
struct RefTempl { std::vector<RefPart> parts; std::vector<int> errors; bool refers[4] = {}; };
const char* const names[] = { "x", "y", "xy", "}" };
// bad references are kept as ordinary text. errors: 0 for syntax, 1 for undefined parameter
RefTempl ref_templ(const std::string& s)
{
    RefTempl t;
    std::string text;
    auto flush = [&] { if (!text.empty()) { t.parts.push_back({ text, -1 }); text.clear(); } };
    std::size_t i = 0;
    while (i < s.size()) {
        if (s[i] != '@') { text += s[i++]; continue; }
        if (i + 1 == s.size()) { t.errors.push_back(0); text += s[i++]; continue; }
        std::string name;
        std::size_t j;
        if (s[i + 1] == '@') { text += '@'; i += 2; continue; }
        if (s[i + 1] == '{') {
            j = s.find('}', i + 2);
            if (j == s.npos) { t.errors.push_back(0); text += "@{"; i += 2; continue; }
            name = s.substr(i + 2, j - i - 2);
            ++j;
        }
        else { name = s.substr(i + 1, 1); j = i + 2; }
        int p = -1;
        for (int k = 0; k < 4; ++k) if (names[k] == name) p = k;
        if (p < 0) { t.errors.push_back(1); text += s.substr(i, j - i); }
        else { flush(); t.parts.push_back({ "", p }); t.refers[p] = true; }
        i = j;
    }
    flush();
    return t;
}

template<class P> [[gnu::noinline]] std::unique_ptr<P> make_parser() { return std::make_unique<P>(); }
[[gnu::noinline]] void clobber_stack() { volatile char b[8192]; for (auto& c : b) c = 0x41; }

template<class C> void templ_scenario(mc::Ctx& x)
{
    static const char al[] = { '@', '{', '}', 'x', 'y', '-' };
    char a = x.pick(al), b = x.pick(al);
    x.shard_point();
    using T = core::BasicStringTemplate<std::basic_string_view<C>, Ctx1>;
    using E = typename T::Parser::Error;
    int var = 7;
    typename T::Parameters params;
    params["x"] = &var;
    params["y"] = &Ctx1::y;
    params["xy"] = [](std::basic_ostream<C>& o, const Ctx1& c) { o << std::hex << c.y + 1; };
    params["}"] = [](std::basic_ostream<C>& o, const Ctx1&) { o << C('#'); };
    bool dup = false;
    try { params["x"] = &var; } catch (const std::runtime_error&) { dup = true; }
    MC_CHECK(x, dup, "duplicate parameter accepted");
    // A parser must not depend on the stack frame in which it was created
    auto parser_ptr = make_parser<typename T::Parser>();
    auto& parser = *parser_ptr;
    clobber_stack();
    typename T::Expander expander(std::locale::classic());
    T keep;
    auto run = [&](const std::string& s) {
        RefTempl e = ref_templ(s);
        auto ws = conv<C>(s);
        std::basic_string_view<C> sv(ws);
        x.eval();
        auto expansion = [&](int v, int y) {
            std::string r;
            for (auto& p : e.parts) {
                char h[16];
                std::snprintf(h, sizeof h, "%x", y + 1);
                r += p.param < 0 ? p.text : p.param == 0 ? std::to_string(v) : p.param == 1 ? std::to_string(y) : p.param == 2 ? std::string(h) : "#";
            }
            return r;
        };
        auto verify = [&](const T& t, const char* w) {
            for (int round = 0; round < 2; ++round) {
                var = round ? -12 : 7;
                Ctx1 c{ round ? 29 : 3 };
                std::string ex = expansion(var, c.y);
                std::basic_ostringstream<C> o;
                t.expand(o, c);
                std::basic_ostringstream<C> o2;
                o2.width(5);
                o2 << core::expand(t, c) << C('|');
                std::string pad(std::size_t(std::max(0, 5 - int(ex.size()))), ' ');
                auto o3 = show<C>(std::basic_string<C>(expander.expand(t, c)));
                if (__builtin_expect(show<C>(o.str()) != ex || show<C>(o2.str()) != pad + ex + "|" || o3 != ex, 0))
                    x.fail(mc::str("template \"", s, "\" (", w, ") expands to \"", show<C>(o.str()), "\" / \"", show<C>(o2.str()), "\" / \"", o3, "\", expected \"", ex, "\""));
            }
            for (int k = 0; k < 4; ++k) MC_CHECK(x, t.refers_to(names[k]) == e.refers[k], mc::str("template \"", s, "\" refers to ", names[k], "?"));
        };
        // Throwing
        for (int k = 0; k < 3; ++k) {
            bool thrown = false;
            try {
                T t = k == 0 ? parser.parse(sv, params) : k == 1 ? parser.parse(s.c_str(), params) : T(sv, params);
                verify(t, "parse");
            }
            catch (const std::invalid_argument&) { thrown = true; }
            MC_CHECK(x, thrown == !e.errors.empty(), mc::str("template \"", s, "\" ", thrown ? "rejected" : "accepted", " (variant ", k, ")"));
        }
        // Error handler: abort at n'th error
        for (std::size_t n = 0; n <= e.errors.size(); ++n) {
            std::vector<int> err;
            T t = parser.parse("keep", params);
            bool ok = parser.try_parse(sv, params, t, [&](E code, std::basic_string_view<C> msg) {
                if (msg.empty()) x.fail("empty error message");
                err.push_back(code == E::bad_syntax ? 0 : 1);
                return err.size() <= n;
            });
            std::vector<int> want(e.errors.begin(), e.errors.begin() + long(std::min(n + 1, e.errors.size())));
            bool want_ok = n == e.errors.size();
            MC_CHECK(x, ok == want_ok && err == want, mc::str("template \"", s, "\": ", err.size(), " errors reported, success ", ok, ", expected ", want.size(), ", ", want_ok));
            if (ok) {
                T u(std::move(t));
                verify(u, "errors ignored");
                keep = std::move(u);
                verify(keep, "moved");
            }
            else {
                std::basic_ostringstream<C> o;
                t.expand(o, Ctx1{ 0 });
                MC_CHECK(x, show<C>(o.str()) == "keep", "template changed by failing parse");
            }
        }
    };
    if (a == '@' && b == '@') { run(""); for (char c : al) run(std::string(1, c)); }
    for (int n = 0; n <= (x.thorough ? 5 : 3); ++n) all_strings(std::string{ a, b }, std::string_view(al, 6), n, run);
    x.state(mc::mix(std::uint64_t(a), std::uint64_t(b)));
}
static mc::Scenario sc_templ("template", 36, [](mc::Ctx& x) { templ_scenario<char>(x); });
static mc::Scenario sc_templ_w("template-wide", 36, [](mc::Ctx& x) { templ_scenario<wchar_t>(x); });

// Templates with more parameters than fit in the parser's initial buffer
static mc::Scenario sc_templ_long("template-long", 4, [](mc::Ctx& x) {
    int n = x.choose(24);
    core::StringTemplate<>::Parameters params;
    int v = 3;
    params["v"] = &v;
    core::StringTemplate<>::Parser parser(std::locale::classic());
    std::string s, e;
    for (int i = 0; i < n; ++i) { s += mc::str(i, i % 3 ? "@v" : i % 2 ? "@{v}" : "@@"); e += mc::str(i, i % 3 || i % 2 ? "3" : "@"); }
    auto t1 = parser.parse(s.c_str(), params);
    auto t2 = parser.parse("<@v>", params);
    std::ostringstream o;
    t1.expand(o);
    o << core::expand(t2);
    MC_CHECK(x, o.str() == e + "<3>", "long template " + s + ": " + o.str());
    x.state(std::uint64_t(n));
});

// ---------------------------------------------------------------- splitting, trimming, ...

template<class C> void split_scenario(mc::Ctx& x)
{
    static const char al[] = { ' ', 'a', ',' };
    char a = x.pick(al), b = x.pick(al);
    x.shard_point();
    std::locale loc = std::locale::classic();
    auto run = [&](const std::string& s) {
        auto ws = conv<C>(s);
        std::basic_string_view<C> sv(ws);
        for (char d : { ' ', ',' }) {
            std::vector<std::pair<std::size_t, std::size_t>> e;
            for (std::size_t i = 0; i < s.size();) {
                if (s[i] == d) { ++i; continue; }
                std::size_t j = i;
                while (j < s.size() && s[j] != d) ++j;
                e.push_back({ i, j });
                i = j;
            }
            for (int k = 0; k < 3; ++k) {
                if (k == 2 && d != ' ') continue;
                std::vector<std::pair<std::size_t, std::size_t>> g;
                auto add = [&](std::basic_string_view<C> w) { g.push_back({ std::size_t(w.data() - sv.data()), std::size_t(w.data() - sv.data()) + w.size() }); };
                if (k == 2) core::for_each_word(sv, loc, add);
                else {
                    core::BasicStringSplitter<C> sp = k ? core::BasicStringSplitter<C>(sv, loc, d) : core::BasicStringSplitter<C>(sv, C(d));
                    std::basic_string_view<C> w;
                    while (sp.next(w)) add(w);
                    auto p = w.data();
                    MC_CHECK(x, !sp.next(w) && w.data() == p, "splitter goes on after end");
                }
                x.eval();
                MC_CHECK(x, g == e, mc::str("splitting \"", s, "\" at '", d, "': ", g.size(), " pieces, expected ", e.size()));
            }
            std::size_t f = 0, l = s.size();
            while (f < l && s[f] == d) ++f;
            while (l > f && s[l - 1] == d) --l;
            auto t1 = core::trim(sv, loc, d), t2 = core::trim(sv, C(d));
            MC_CHECK(x, t1 == sv.substr(f, l - f) && t2 == t1 && (t1.empty() || (t1.data() == sv.data() + f && t2.data() == t1.data())), mc::str("trimming \"", s, "\""));
        }
        for (std::string q : { "", "a", " ", "a ", ",,", "aa", " a," }) {
            auto wq = conv<C>(q);
            bool g = core::contains(sv, std::basic_string_view<C>(wq)), g2 = core::contains(sv, wq.c_str());
            bool e = false;
            for (std::size_t i = 0; i + q.size() <= s.size(); ++i) e = e || s.compare(i, q.size(), q) == 0;
            MC_CHECK(x, g == e && g2 == e, mc::str("\"", s, "\" contains \"", q, "\"?"));
            std::basic_string_view<C> wv(wq);
            MC_CHECK(x, core::concat(sv, wv) == ws + wq && core::concat(wv, sv, wv) == wq + ws + wq && core::concat(sv, wv, sv) == ws + wq + ws, mc::str("concatenation of \"", s, "\""));
        }
        std::basic_string<C> copy = ws;
        for (std::size_t i = 0; i <= s.size(); ++i) for (std::size_t n = 0; i + n <= s.size(); ++n) {
            std::basic_string_view<C> v = sv.substr(i, n);
            core::rebase_string(v, sv.data(), static_cast<const C*>(copy.data()));
            MC_CHECK(x, v.data() == copy.data() + i && v.size() == n, "rebase");
        }
    };
    if (a == ' ' && b == ' ') { run(""); for (char c : al) run(std::string(1, c)); }
    for (int n = 0; n <= (x.thorough ? 8 : 5); ++n) all_strings(std::string{ a, b }, std::string_view(al, 3), n, run);
    x.state(mc::mix(std::uint64_t(a), std::uint64_t(b)));
}
static mc::Scenario sc_split("split", 9, [](mc::Ctx& x) { split_scenario<char>(x); });
static mc::Scenario sc_split_w("split-wide", 9, [](mc::Ctx& x) { split_scenario<wchar_t>(x); });

} // namespace
