// C19: string matcher, wildcard filter and pattern based test order against the definition of
// wildcard patterns.
#include "mc.hpp"
#include <limits>
#include <locale>
#include <stdexcept>
#include <string>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/format_as.hpp>
#include <archon/core/string_matcher.hpp>
#include <archon/check/test_details.hpp>
#include <archon/check/wildcard_filter.hpp>
#include <archon/check/pattern_based_test_order.hpp>

using namespace archon;
using M = core::StringMatcher;
using W = core::WideStringMatcher;

namespace {

bool ref_match(std::string_view p, std::string_view s)
{
    if (p.empty()) return s.empty();
    if (p[0] == '*') return ref_match(p.substr(1), s) || (!s.empty() && ref_match(p, s.substr(1)));
    return !s.empty() && p[0] == s[0] && ref_match(p.substr(1), s.substr(1));
}

// Whether some string matches both patterns
bool ref_common(std::string_view p, std::string_view q)
{
    if (p.empty() || q.empty()) {
        auto r = p.empty() ? q : p;
        return r.find_first_not_of('*') == r.npos;
    }
    if (p[0] == '*') return ref_common(p.substr(1), q) || (q[0] == '*' ? ref_common(p, q.substr(1)) : ref_common(p, q.substr(1)));
    if (q[0] == '*') return ref_common(p, q.substr(1)) || ref_common(p.substr(1), q);
    return p[0] == q[0] && ref_common(p.substr(1), q.substr(1));
}

std::vector<std::string> words(std::string_view alpha, int max)
{
    std::vector<std::string> r = { "" };
    std::size_t b = 0;
    for (int l = 1; l <= max; ++l) {
        std::size_t e = r.size();
        for (std::size_t i = b; i < e; ++i)
            for (char c : alpha) r.push_back(r[i] + c);
        b = e;
    }
    return r;
}

std::wstring wide(const std::string& s) { return std::wstring(s.begin(), s.end()); }

const char* ordinals[] = { "1st", "2nd", "3rd", "4th" };

void check_set(mc::Ctx& x, const std::vector<std::string>& ps, const std::vector<std::string>& strings, bool wide_too)
{
    bool ambiguous = false;
    std::vector<std::string> messages;
    for (std::size_t i = 0; i < ps.size(); ++i)
        for (std::size_t j = i + 1; j < ps.size(); ++j)
            if (ref_common(ps[i], ps[j])) {
                ambiguous = true;
                messages.push_back(mc::str("Ambiguity between ", ordinals[i], " and ", ordinals[j], " pattern"));
            }
    auto name = [&] { std::string s; for (auto& p : ps) s += mc::esc(p) + " "; return s; };
    M::Builder::Config conf;
    conf.locale = std::locale::classic();
    for (bool allow : { false, true }) {
        conf.allow_interpattern_ambiguity = allow;
        M::Builder b(conf);
        M m;
        MC_CHECK(x, b.empty());
        for (std::size_t i = 0; i < ps.size(); ++i) b.add_pattern(M::PatternType::wildcard, std::string_view(ps[i]), 100 + i);
        MC_CHECK(x, b.empty() == ps.empty());
        bool thrown = false;
        std::string msg;
        try { m = b.build(); } catch (std::runtime_error& e) { thrown = true; msg = e.what(); }
        x.step();
        MC_CHECK(x, thrown == (ambiguous && !allow), "patterns ", name(), " ambiguity reported ", thrown);
        if (thrown) {
            MC_CHECK(x, std::find(messages.begin(), messages.end(), msg) != messages.end(), "patterns ", name(), ": ", msg);
            continue;
        }
        MC_CHECK(x, m.is_degenerate() == ps.empty());
        for (auto& s : strings) {
            std::size_t id = 777, expect = 777;
            for (std::size_t i = 0; i < ps.size() && expect == 777; ++i)
                if (ref_match(ps[i], s)) expect = 100 + i;
            bool got = m.match(s, id);
            x.eval();
            MC_CHECK(x, got == (expect != 777) && id == expect, "patterns ", name(), " string ", mc::esc(s), " matched ", got, " ident ", id);
            MC_CHECK(x, m.match(s) == got);
        }
        if (wide_too) {
            W::Builder::Config wconf;
            wconf.locale = std::locale::classic();
            wconf.allow_interpattern_ambiguity = allow;
            W::Builder wb(wconf);
            W wm;
            std::vector<std::wstring> keep;
            for (auto& p : ps) keep.push_back(wide(p));
            for (std::size_t i = 0; i < ps.size(); ++i)
                if (i % 2) wb.add_pattern(M::PatternType::wildcard, ps[i].c_str(), 100 + i);
                else wb.add_pattern(M::PatternType::wildcard, std::wstring_view(keep[i]), 100 + i);
            wb.build(wm);
            for (auto& s : strings) {
                std::size_t id = 777, id_2 = 777;
                MC_CHECK(x, wm.match(wide(s), id) == m.match(s, id_2) && id == id_2, "wide patterns ", name(), " string ", mc::esc(s));
                MC_CHECK(x, !wm.match(wide(s) + L'\xFFFF', id) || wm.match(wide(s) + L'z', id));
            }
        }
    }
}

void sets(mc::Ctx& x)
{
    int n = x.range(0, 3);
    static const auto pats = words("ab*", 3);
    static const auto strings = words("abc", 4);
    static const auto short_strings = words("abc", 3);
    std::vector<std::string> ps;
    std::size_t lim = n == 3 && !x.thorough ? 1 + 3 + 9 : pats.size();
    for (int i = 0; i < n; ++i) {
        ps.push_back(pats[std::size_t(x.choose(int(i == 0 ? pats.size() : lim)))]);
        if (i == 0) x.shard_point();
    }
    check_set(x, ps, n < 3 ? strings : short_strings, n < 3);
}
mc::Scenario s_sets("sets", 64, sets);

void single(mc::Ctx& x)
{
    static const auto pats = words("ab*", 6);
    static const auto strings = words("ab", 7);
    std::size_t i = std::size_t(x.choose(16));
    x.shard_point();
    for (; i < pats.size(); i += 16) {
        M m(M::PatternType::wildcard, std::string_view(pats[i]), std::locale::classic());
        M m2(M::PatternType::wildcard, pats[i].c_str());
        x.step();
        for (auto& s : strings) {
            x.eval();
            bool e = ref_match(pats[i], s);
            MC_CHECK(x, m.match(s) == e && m2.match(s) == e, mc::esc(pats[i]), " on ", mc::esc(s));
        }
    }
}
mc::Scenario s_single("single", 16, single);

// All character values
void chars(mc::Ctx& x)
{
    static const char* pats[] = { "*", "a*", "*a", "*a*", "a", "**", "*a*b*" };
    std::string p = x.pick(pats);
    int c = x.choose(257);
    x.shard_point();
    for (auto& ch : p)
        if (ch == 'a' && c < 256 && c != '*') ch = char(c);
    M m(M::PatternType::wildcard, std::string_view(p), std::locale::classic());
    for (int d = 0; d < 256; ++d)
        for (std::string s : { std::string(1, char(d)), std::string("a") + char(d), std::string(1, char(d)) + char(c), std::string(1, char(c)) + char(d) + "b" }) {
            x.eval();
            MC_CHECK(x, m.match(s) == ref_match(p, s), mc::esc(p), " on ", mc::esc(s));
        }
    x.step();
}
mc::Scenario s_chars("chars", 64, chars);

// Builder reuse: add, build, clear in any order
void reuse(mc::Ctx& x)
{
    M::Builder::Config conf;
    conf.locale = std::locale::classic();
    conf.allow_interpattern_ambiguity = x.choose(2);
    M::Builder b(conf);
    M m;
    std::vector<std::string> ps, built;
    static const char* pats[] = { "", "a", "*", "a*", "ab", "*b" };
    static const auto strings = words("ab", 3);
    int nops = x.thorough ? 6 : 5;
    for (int i = 0; i < nops; ++i) {
        int op = x.choose(8);
        if (i == 1) x.shard_point();
        if (op < 6) {
            b.add_pattern(M::PatternType::wildcard, std::string_view(pats[op]), 10 + ps.size());
            ps.push_back(pats[op]);
        }
        else if (op == 6) {
            b.clear();
            ps.clear();
        }
        else {
            bool amb = false;
            for (std::size_t j = 0; j < ps.size(); ++j)
                for (std::size_t k = 0; k < j; ++k) amb = amb || ref_common(ps[j], ps[k]);
            bool thrown = false;
            try { b.build(m); } catch (std::runtime_error&) { thrown = true; }
            MC_CHECK(x, thrown == (amb && !conf.allow_interpattern_ambiguity));
            if (!thrown) built = ps;
        }
        MC_CHECK(x, b.empty() == ps.empty());
        MC_CHECK(x, m.is_degenerate() == built.empty());
        x.step();
        for (auto& s : strings) {
            std::size_t id = 777, expect = 777;
            for (std::size_t j = 0; j < built.size() && expect == 777; ++j)
                if (ref_match(built[j], s)) expect = 10 + j;
            m.match(s, id);
            MC_CHECK(x, id == expect, "string ", mc::esc(s));
        }
    }
}
mc::Scenario s_reuse("reuse", 64, reuse);

check::TestDetails details(const std::string& name)
{
    check::TestDetails d = {};
    d.name = name;
    return d;
}

void filter(mc::Ctx& x)
{
    static const char* ws[] = { "a", "a*", "*", "*b", "ab", "b*a", "-" };
    static const char* seps[] = { " ", "  " };
    static const auto names = words("ab", 3);
    int n = x.range(0, x.thorough ? 5 : 4);
    bool neg = false;
    std::vector<std::string> inc, exc;
    std::string f = x.choose(2) ? " " : "";
    const char* sep = x.pick(seps);
    for (int i = 0; i < n; ++i) {
        int w = x.choose(neg ? 6 : 7);
        if (i == 0) x.shard_point();
        if (i) f += sep;
        f += ws[w];
        if (w == 6) neg = true;
        else (neg ? exc : inc).push_back(ws[w]);
    }
    if (f.size() % 2) f += sep;
    check::WildcardFilter wf(f, std::locale::classic());
    x.step();
    for (auto& s : names) {
        bool e = inc.empty();
        for (auto& p : inc) e = e || ref_match(p, s);
        for (auto& p : exc) e = e && !ref_match(p, s);
        MC_CHECK(x, wf.include(details(s)) == e, "filter ", mc::esc(f), " on ", mc::esc(s));
        x.eval();
    }
}
mc::Scenario s_filter("filter", 64, filter);

void order(mc::Ctx& x)
{
    static const char* ws[] = { "a", "a*", "*", "*b", "ab", "b*a", "" };
    static const auto names = words("ab", 3);
    int n = x.range(0, 3);
    std::vector<std::string_view> ps;
    for (int i = 0; i < n; ++i) ps.push_back(x.pick(ws));
    check::PatternBasedTestOrder o(ps, std::locale::classic());
    auto rank = [&](const std::string& s) {
        std::size_t i = 0;
        while (i < ps.size() && !ref_match(ps[i], s)) ++i;
        return i;
    };
    x.step();
    for (auto& a : names)
        for (auto& b : names) {
            MC_CHECK(x, o.less(details(a), details(b)) == (rank(a) < rank(b)), mc::esc(a), " before ", mc::esc(b));
            x.eval();
        }
}
mc::Scenario s_order("order", 1, order);

} // namespace
