// C30: XML reports (check/xml_reporter.cpp), duplicating reporters, random seeds (check/random_seed.hpp),
// seed sequences of tests, and log files of test threads.
#include "mc.hpp"
#include <array>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include <limits>
#include <locale>
#include <map>
#include <optional>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/core/span.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/array_seeded_buffer.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/log.hpp>
#include <archon/check.hpp>
#include <archon/check/random_seed.hpp>
#include <archon/check/xml_reporter.hpp>
#include <archon/check/duplicating_reporter.hpp>
#include <archon/check/test_list.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/reporter.hpp>
#include <archon/check/fail_context.hpp>
using namespace archon;

namespace {

// ---- Random seeds

using Word = check::RandomSeed::value_type;
const char digits[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";

std::string ref_format(const std::vector<Word>& w)
{
    if (w.empty()) return "-";
    std::string r;
    for (std::size_t b = 0; b < w.size(); b += 2) {
        if (b && b % 6 == 0) r += '-';
        unsigned __int128 v = (unsigned __int128)(w[b + 1]) << 32 | w[b];
        std::string s;
        for (int i = 0; i < 11; ++i) { s.insert(s.begin(), digits[int(v % 62)]); v /= 62; }
        r += s;
    }
    return r;
}
// Returns number of consumed characters, or -1
int ref_parse(const std::string& s, std::vector<Word>& w)
{
    w.clear();
    std::size_t i = 0;
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t')) ++i;
    if (i == s.size()) return -1;
    if (s[i] == '-') return int(i + 1);
    for (;;) {
        std::size_t n = 0;
        for (; i + n < s.size(); ++n) {
            const char* p = std::strchr(digits, s[i + n]);
            if (!p || s[i + n] == 0) break;
        }
        if (n != 33) return -1;
        for (int k = 0; k < 3; ++k) {
            unsigned __int128 v = 0;
            for (int j = 0; j < 11; ++j) v = v * 62 + unsigned(std::strchr(digits, s[i + std::size_t(k * 11 + j)]) - digits);
            if (v >> 64) return -1;
            w.push_back(Word(v & 0xFFFFFFFF));
            w.push_back(Word(v >> 32 & 0xFFFFFFFF));
        }
        i += 33;
        if (i == s.size() || s[i] != '-') return int(i);
        ++i;
    }
}
template<class C> void parse_one(mc::Ctx& x, const std::string& s)
{
    std::vector<Word> e;
    int n = ref_parse(s, e);
    std::array<Word, 6> old = { 9, 8, 7, 6, 5, 4 };
    check::RandomSeed seed { core::Span<const Word>(old) };
    std::basic_string<C> t(s.begin(), s.end());
    if constexpr (!std::is_same_v<C, char>) { t.clear(); for (char c : s) t += C((unsigned char)c < 128 ? (unsigned char)c : 0x20AC); }
    std::basic_istringstream<C> in(t);
    in >> seed;
    x.eval();
    MC_CHECK(x, in.fail() == (n < 0), "parsing of \"", s, "\": ", in.fail() ? "rejected" : "accepted");
    if (n < 0) {
        MC_CHECK(x, std::equal(seed.begin(), seed.end(), old.begin(), old.end()), "seed modified by failed parsing of ", s);
    }
    else {
        MC_CHECK(x, std::equal(seed.begin(), seed.end(), e.begin(), e.end()), "parsing of \"", s, "\" gives wrong seed");
        in.clear();
        std::basic_string<C> rest;
        C c;
        while (in.get(c)) rest += c;
        MC_CHECK(x, rest == t.substr(std::size_t(n)), "wrong amount consumed when parsing \"", s, "\"");
    }
    if constexpr (std::is_same_v<C, char>) {
        check::RandomSeed seed2;
        core::ValueParser parser(std::locale::classic());
        bool ok = parser.parse(std::string_view(s), seed2);
        std::size_t from = s.find_first_not_of(" \t\n");
        bool clean = from == 0 || from == s.npos; // Leading space is up to the value parser
        if (clean) MC_CHECK(x, ok == (n >= 0 && std::size_t(n) == s.size()), "value parser ", ok ? "accepts \"" : "rejects \"", s, "\"");
    }
}
using U = std::uint64_t;
const std::vector<U>& words64()
{
    static const std::vector<U> v = [] {
        std::vector<U> r = { 0, 1, 61, 62, 63, 0xFFFFFFFF, 0x100000000, 0x100000001, 0xFFFFFFFF00000000, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF, 0x8000000000000000, 0x7FFFFFFFFFFFFFFF };
        U p = 62;
        for (int i = 2; i <= 10; ++i) { p *= 62; r.push_back(p - 1); r.push_back(p); }
        return r;
    }();
    return v;
}
mc::Scenario s_seed("seed-round-trip", 8, [](mc::Ctx& x) {
    const auto& v = words64();
    std::vector<Word> w;
    int blocks = x.choose(4);
    for (int b = 0; b < blocks; ++b) {
        if (b > 0) { U q = x.pick({ U(0), U(0xFFFFFFFFFFFFFFFF), U(0x123456789ABCDEF) }); for (int k = 0; k < 3; ++k) { w.push_back(Word(q & 0xFFFFFFFF)); w.push_back(Word(q >> 32)); q += b; } continue; }
        for (int k = 0; k < 3; ++k) { U q = v[std::size_t(x.choose(int(v.size())))]; w.push_back(Word(q & 0xFFFFFFFF)); w.push_back(Word(q >> 32)); if (k == 0) x.shard_point(); }
    }
    if (blocks == 0) x.shard_point();
    int extra = x.choose(6); // Ignored by constructor
    std::vector<Word> w2 = w;
    for (int i = 0; i < extra; ++i) w2.push_back(7);
    check::RandomSeed seed { core::Span<const Word>(w2) };
    MC_CHECK(x, seed.size() == w.size() && std::equal(seed.begin(), seed.end(), w.begin()), "wrong content of seed");
    if (extra > 1) return;
    std::string e = ref_format(w);
    std::ostringstream out;
    out << seed;
    MC_CHECK(x, out.str() == e, "seed is formatted as ", out.str(), ", expected ", e);
    std::wostringstream wout;
    wout << seed;
    MC_CHECK(x, wout.str() == std::wstring(e.begin(), e.end()), "wide formatting");
    check::RandomSeed copy(seed), assigned;
    assigned = copy;
    MC_CHECK(x, std::equal(assigned.begin(), assigned.end(), w.begin(), w.end()), "copy differs");
    check::RandomSeed moved(std::move(copy));
    MC_CHECK(x, std::equal(moved.begin(), moved.end(), w.begin(), w.end()), "moved seed differs");
    parse_one<char>(x, e);
    parse_one<wchar_t>(x, e);
    x.outcome(mc::hash_str(e));
});
mc::Scenario s_corrupt("seed-corruptions", 8, [](mc::Ctx& x) {
    static const std::vector<std::string> base = { "-", "", "000000000000000000000000000000000", "LygHa16AHYFLygHa16AHYFLygHa16AHYF", "0000000000zzzzzzzzzzzz0000000000z", "LygHa16AHYF0000000000000000000000-DHCTKSZ3ezH6eqQDUU78Xz7Dq34LsJj8j",
        "DHCTKSZ3ezH6eqQDUU78Xz7Dq34LsJj8j-3ZaCeKvxGu0FWTTBkyC8TG7f18BaKQ0tZ-000000000000000000000000000000001" };
    std::string s = base[std::size_t(x.choose(int(base.size())))];
    int edits = x.choose(3);
    static const std::string alpha = std::string("-0zALMZ _.\n\x7F") + '\0' + '\xE6';
    for (int i = 0; i < edits; ++i) {
        if (i == 1 && s.size() > 40) return x.prune();
        int kind = x.choose(4);
        std::size_t p = std::size_t(x.choose(int(s.size()) + 1));
        if (i == 0) x.shard_point();
        switch (kind) {
            case 0: s.insert(p, 1, alpha[std::size_t(x.choose(int(alpha.size())))]); break;
            case 1: if (p == s.size()) return x.prune(); s.erase(p, 1); break;
            case 2: if (p == s.size()) return x.prune(); s[p] = alpha[std::size_t(x.choose(int(alpha.size())))]; break;
            case 3: s.insert(p, x.choose(2) ? std::string("00") : std::string(33, '0')); break;
        }
    }
    if (edits == 0) x.shard_point();
    parse_one<char>(x, s);
    if (edits < 2) parse_one<wchar_t>(x, s);
    x.outcome(mc::hash_str(s) % 1000);
});

// ---- A strict XML parser for the subset without text content

struct Elem { std::string name; std::vector<std::pair<std::string, std::string>> attrs; std::vector<Elem> kids; };
struct Bad { std::string why; };
struct Xml {
    const std::string& s;
    std::size_t i = 0;
    char peek() { if (i >= s.size()) throw Bad { "unexpected end" }; return s[i]; }
    bool ws() { std::size_t j = i; while (i < s.size() && std::strchr(" \t\r\n", s[i]) && s[i]) ++i; return i > j; }
    void lit(const char* t) { std::size_t n = std::strlen(t); if (s.compare(i, n, t)) throw Bad { std::string("expected ") + t }; i += n; }
    bool at(const char* t) { return s.compare(i, std::strlen(t), t) == 0; }
    std::string name() { std::size_t j = i; while (i < s.size() && (std::isalnum((unsigned char)s[i]) || s[i] == '-')) ++i; if (i == j) throw Bad { "name expected" }; return s.substr(j, i - j); }
    std::string value()
    {
        char q = peek();
        if (q != '"' && q != '\'') throw Bad { "quote expected" };
        ++i;
        std::string r;
        for (;;) {
            char c = peek();
            if (c == q) { ++i; return r; }
            if (c == '<') throw Bad { "'<' in attribute value" };
            if (c == '&') {
                std::size_t e = s.find(';', i);
                if (e == s.npos) throw Bad { "'&' in attribute value" };
                std::string ent = s.substr(i + 1, e - i - 1);
                if (ent == "amp") r += '&'; else if (ent == "lt") r += '<'; else if (ent == "gt") r += '>'; else if (ent == "apos") r += '\''; else if (ent == "quot") r += '"';
                else if (ent.size() > 1 && ent[0] == '#') {
                    char* end;
                    long v = ent[1] == 'x' ? std::strtol(ent.c_str() + 2, &end, 16) : std::strtol(ent.c_str() + 1, &end, 10);
                    if (*end || (v != 9 && v != 10 && v != 13 && (v < 32 || v > 126))) throw Bad { "bad character reference" };
                    r += char(v);
                }
                else throw Bad { "bad entity" };
                i = e + 1;
                continue;
            }
            if (c == '\t' || c == '\n' || c == '\r') c = ' '; // Attribute value normalization
            if (c >= 0 && c < 32) throw Bad { "bad character" };
            r += c;
            ++i;
        }
    }
    Elem elem()
    {
        Elem e;
        lit("<");
        e.name = name();
        for (;;) {
            bool w = ws();
            if (at("/>")) { i += 2; return e; }
            if (at(">")) { ++i; break; }
            if (!w) throw Bad { "space expected" };
            std::string n = name();
            lit("=");
            for (auto& a : e.attrs) if (a.first == n) throw Bad { "duplicate attribute" };
            std::string v = value();
            e.attrs.emplace_back(n, v);
        }
        for (;;) {
            ws();
            if (at("</")) { i += 2; if (name() != e.name) throw Bad { "mismatched end tag" }; ws(); lit(">"); return e; }
            e.kids.push_back(elem());
        }
    }
    Elem doc() { lit("<?xml version=\"1.0\"?>"); ws(); Elem e = elem(); ws(); if (i != s.size()) throw Bad { "trailing text" }; return e; }
};
std::string attr(mc::Ctx& x, const Elem& e, const char* n)
{
    for (auto& a : e.attrs) if (a.first == n) return a.second;
    x.fail(mc::str("attribute ", n, " missing"));
    return "";
}

struct Fail { std::string path; long line; std::string message; };
struct T { std::string name; std::vector<Fail> fails; int passes = 0; };

struct Mapper : check::SourcePathMapper {
    std::string prefix;
    bool map(std::filesystem::path& p) const override { if (prefix.empty()) return false; p = std::filesystem::path(prefix + p.native()); return true; }
};

std::string base_dir() { const char* p = std::getenv("MC_TMP"); return p ? p : "."; }

void xml(mc::Ctx& x, const std::vector<T>& tests, const std::string& suite, const std::string& prefix, int reps, bool dup)
{
    std::ostringstream out, out2, out3;
    out.imbue(std::locale::classic());
    check::XmlReporter rep1(out, suite), rep2(out2, suite), rep3(out3, suite);
    check::DuplicatingReporter two { rep1, rep2 };
    check::DuplicatingReporter three { &rep1, &rep2, &rep3 };
    Mapper mapper;
    mapper.prefix = prefix;
    check::TestList list;
    for (auto& t : tests)
        list.add(t.name, "tests.cpp", 1, [&](check::TestContext& tc) {
            for (int i = 0; i < t.passes; ++i) tc.check_succeeded();
            for (auto& f : t.fails) tc.check_failed({ f.path, f.line }, f.message);
        }, nullptr, false);
    check::TestConfig config;
    config.num_threads = 1;
    config.num_repetitions = reps;
    config.test_list = &list;
    config.logger = &log::Logger::get_null();
    config.reporter = dup ? x.choose(2) ? static_cast<check::Reporter*>(&two) : &three : &rep1;
    config.source_path_mapper = &mapper;
    config.test_file_base_dir = std::filesystem::path(base_dir());
    check::TestRunner runner(std::locale::classic(), config);
    runner.run();
    x.eval();
    std::string s = out.str();
    if (x.tracing) MC_TRACE(x, s);
    if (dup) {
        MC_CHECK(x, out2.str().size() > 0 && (config.reporter == &two || out3.str().size() > 0), "second reporter was not informed");
        auto strip = [](std::string t) { for (std::size_t i; (i = t.find("time=\"")) != t.npos;) t.erase(i, t.find('"', i + 6) - i); return t; };
        MC_CHECK(x, strip(out2.str()) == strip(s), "second reporter was informed differently");
        if (config.reporter == &three) MC_CHECK(x, strip(out3.str()) == strip(s), "third reporter was informed differently");
    }
    Elem root;
    try { root = Xml { s }.doc(); }
    catch (const Bad& e) { return x.fail(mc::str("report is not well-formed: ", e.why, ": ", s)); }
    MC_CHECK(x, root.name == "unittest-results", "wrong root element");
    long execs = 0, failed = 0, checks = 0, fails = 0;
    for (auto& t : tests) { execs += reps; failed += t.fails.empty() ? 0 : reps; checks += reps * (long(t.fails.size()) + t.passes); fails += reps * long(t.fails.size()); }
    MC_CHECK(x, attr(x, root, "tests") == mc::str(execs), "tests is ", attr(x, root, "tests"), ", expected ", execs);
    MC_CHECK(x, attr(x, root, "failedtests") == mc::str(failed), "failedtests is ", attr(x, root, "failedtests"));
    MC_CHECK(x, attr(x, root, "checks") == mc::str(checks), "checks is ", attr(x, root, "checks"));
    MC_CHECK(x, attr(x, root, "failures") == mc::str(fails), "failures is ", attr(x, root, "failures"));
    MC_CHECK(x, std::strtod(attr(x, root, "time").c_str(), nullptr) >= 0, "time");
    MC_CHECK(x, long(root.kids.size()) == execs, root.kids.size(), " tests in report, expected ", execs);
    std::size_t k = 0;
    for (auto& t : tests)
        for (int r = 1; r <= reps; ++r) {
            const Elem& e = root.kids[k++];
            std::string name = reps > 1 ? mc::str(t.name, "#", r) : t.name;
            MC_CHECK(x, e.name == "test" && attr(x, e, "name") == name, "test is named ", mc::esc(attr(x, e, "name")), ", expected ", mc::esc(name));
            MC_CHECK(x, attr(x, e, "suite") == suite, "suite is ", mc::esc(attr(x, e, "suite")), ", expected ", mc::esc(suite));
            MC_CHECK(x, std::strtod(attr(x, e, "time").c_str(), nullptr) >= 0, "time");
            MC_CHECK(x, e.kids.size() == t.fails.size(), e.kids.size(), " failures, expected ", t.fails.size());
            for (std::size_t j = 0; j < t.fails.size(); ++j) {
                const Fail& f = t.fails[j];
                std::string m = mc::str(prefix, f.path, "(", f.line, ") : ", f.message);
                MC_CHECK(x, e.kids[j].name == "failure" && attr(x, e.kids[j], "message") == m, "failure is ", mc::esc(attr(x, e.kids[j], "message")), ", expected ", mc::esc(m));
            }
        }
    x.outcome(mc::hash_str(s.substr(0, 60)));
}
const std::vector<std::string> chars = { "a", "&", "<", ">", "'", "\"", "\n", "\t", "\r", "\xC3\xA6", " ", "]]>", "&amp;", "%", ";" };
std::string word(mc::Ctx& x, int max)
{
    std::string s;
    int n = x.choose(max + 1);
    for (int i = 0; i < n; ++i) s += chars[std::size_t(x.choose(int(chars.size())))];
    return s;
}
mc::Scenario s_text("report-texts", 8, [](mc::Ctx& x) {
    int where = x.choose(5);
    std::string w = word(x, where == 0 && x.thorough ? 4 : where < 2 || x.thorough ? 3 : 2);
    x.shard_point();
    std::string path = where == 1 && !w.empty() ? "dir/" + w : "t.cpp";
    std::vector<T> t = { { where == 2 ? w : "Foo", { { path, 7, where == 0 ? w : "x" } }, 1 } };
    xml(x, t, where == 3 ? w : "default", where == 4 ? "/map/" + w : "", x.choose(2) ? 2 : 1, false);
});
mc::Scenario s_struct("report-structure", 8, [](mc::Ctx& x) {
    int n = x.choose(x.thorough ? 5 : 4);
    std::vector<T> t;
    for (int i = 0; i < n; ++i) {
        T u;
        u.name = mc::str("T", 9 - i);
        int f = x.choose(3);
        for (int j = 0; j < f; ++j) u.fails.push_back({ j ? "a-file-path-that-is-too-long-for-any-small-string-optimization.cpp" : "b.cpp", j ? 2147483647L : 1L, mc::str("message ", i, " ", j, j ? std::string(1500, 'y') : "") });
        u.passes = x.choose(2) * 1000;
        t.push_back(u);
    }
    x.shard_point();
    int reps = x.choose(4);
    xml(x, t, "s", x.choose(2) ? "some/long/prefix/that/does/not/fit/in/a/small/string/" : "", reps, x.choose(2));
});

// ---- Seed sequences presented to tests

mc::Scenario s_seq("seed-sequences", 1, [](mc::Ctx& x) {
    int blocks = x.choose(3);
    int reps = x.pick({ 1, 2, 3 });
    int over = x.pick({ 0, 1, 2, 77 });
    std::vector<Word> w;
    for (int i = 0; i < blocks * 6; ++i) w.push_back(Word(i * 0x12345679u + 5));
    check::TestList list;
    std::map<int, std::pair<std::vector<std::uint32_t>, std::uint64_t>> got;
    for (const char* name : { "A", "B" })
        list.add(name, "tests.cpp", 1, [&](check::TestContext& tc) {
            auto&& seq = tc.seed_seq();
            std::vector<std::uint32_t> p(seq.size());
            seq.param(p.begin());
            std::mt19937_64 random(tc.seed_seq());
            auto v = std::pair(p, random());
            auto r = got.emplace(tc.repetition_no, v);
            if (!r.second && r.first->second != v) x.fail("seed sequence depends on test");
        }, nullptr, false);
    check::TestConfig config;
    config.num_threads = 1;
    config.num_repetitions = reps;
    config.test_list = &list;
    config.logger = &log::Logger::get_null();
    config.random_seed = check::RandomSeed(core::Span<const Word>(w));
    config.rseed_rep_no_override = over;
    config.test_file_base_dir = std::filesystem::path(base_dir());
    check::TestRunner(std::locale::classic(), config).run();
    MC_CHECK(x, got.size() == std::size_t(reps), "repetitions");
    for (auto& [rep, v] : got) {
        std::vector<std::uint32_t> e(w.begin(), w.end());
        e.push_back(std::uint32_t(over > 0 ? over : rep));
        e.push_back(0);
        MC_CHECK(x, v.first == e, "wrong seed sequence in repetition ", rep);
        std::seed_seq ss(e.begin(), e.end());
        std::mt19937_64 random(ss);
        MC_CHECK(x, v.second == random(), "engine seeded differently in repetition ", rep);
        x.eval();
    }
    x.outcome(std::uint64_t(blocks * 100 + reps * 10 + over));
});

// ---- Log files of test threads

mc::Scenario s_log("log-files", 4, [](mc::Ctx& x) {
    struct Tmpl { const char* text; const char* path; }; // null: must be rejected
    static const std::string root = base_dir() + "/c30-" + std::to_string(::getpid());
    static const std::string abs = root + "/abs/@n";
    static const std::vector<Tmpl> ts = { { "thread_@n.log", "thread_1.log" }, { "@N", "1" }, { "a/b@i", "a/b0" }, { "@I@n", "01" }, { "x@@@n", "x@1" }, { "../@n", nullptr }, { "a/../../@n", nullptr }, { abs.c_str(), nullptr },
        { "plain", nullptr }, { "@t", nullptr }, { "@", nullptr }, { "@q@n", nullptr }, { "a/../@n", "1" }, { "a/c/d/@n@i@n", "a/c/d/101" } };
    const Tmpl& t = ts[std::size_t(x.choose(int(ts.size())))];
    bool stamps = x.choose(2);
    int ntests = x.choose(3);
    int reps = 1 + x.choose(2);
    int runs = 1 + x.choose(2);
    x.shard_point();
    std::filesystem::path logs = std::filesystem::path(root) / "x/logs";
    std::filesystem::remove_all(root);
    std::filesystem::create_directories(logs);
    struct R { ~R() { std::filesystem::remove_all(root); } } reset;
    check::TestList list;
    for (int i = 0; i < ntests; ++i)
        list.add(i ? "B" : "A", "tests.cpp", 1, [i](check::TestContext& tc) { tc.logger.info("message %s from %s", i, tc.test_details.name); tc.logger.error("second"); }, nullptr, false);
    check::TestConfig config;
    config.num_threads = 1;
    config.num_repetitions = reps;
    config.test_list = &list;
    config.logger = &log::Logger::get_null();
    config.log_to_files = true;
    config.log_timestamps = stamps;
    config.log_path_template = t.text;
    config.log_file_base_dir = logs;
    config.test_file_base_dir = std::filesystem::path(base_dir());
    config.inner_log_level_limit = log::LogLevel::info;
    bool ok = true;
    try { for (int i = 0; i < runs; ++i) check::TestRunner(std::locale::classic(), config).run(); }
    catch (std::filesystem::filesystem_error& e) { x.fail(e.what()); }
    catch (std::runtime_error&) { ok = false; }
    x.eval();
    std::map<std::string, std::string> files;
    for (auto& e : std::filesystem::recursive_directory_iterator(root))
        if (e.is_regular_file()) {
            std::ifstream f(e.path(), std::ios::binary);
            std::ostringstream o;
            o << f.rdbuf();
            files[e.path().string().substr(root.size())] = o.str();
        }
    if (x.tracing) for (auto& f : files) MC_TRACE(x, f.first, ": ", f.second);
    for (auto& f : files) MC_CHECK(x, f.first.starts_with("/x/logs/"), "file created outside log directory: ", f.first);
    for (auto& e : std::filesystem::recursive_directory_iterator(root))
        MC_CHECK(x, e.path() == logs.parent_path() || e.path().string().starts_with(logs.string()), "created outside log directory: ", e.path().string());
    if (!t.path) {
        MC_CHECK(x, !ok || ntests == 0, "log path template ", t.text, " accepted"); // no threads, so no paths
        return;
    }
    MC_CHECK(x, ok, "log path template ", t.text, " rejected");
    MC_CHECK(x, files.size() == 1 || (ntests == 0 && files.empty()), "number of log files: ", files.size());
    if (ntests == 0) { x.outcome(mc::hash_str(mc::str(t.text, files.size()))); return; }
    auto i = files.find(std::string("/x/logs/") + t.path);
    MC_CHECK(x, i != files.end(), "log file has wrong name: ", files.begin()->first);
    std::istringstream in(i->second);
    std::string line;
    std::vector<std::string> got;
    while (std::getline(in, line)) {
        if (stamps) { std::size_t p = line.find(": "); MC_CHECK(x, p == 23 && line[10] == 'T', "timestamp in ", line); line.erase(0, p + 2); }
        std::size_t p = line.find("message ");
        if (p == line.npos) p = line.find("second");
        if (p != line.npos) got.push_back(line.substr(p));
    }
    std::vector<std::string> e;
    for (int r = 0; r < reps * runs; ++r) for (int j = 0; j < ntests; ++j) { e.push_back(mc::str("message ", j, " from ", j ? "B" : "A")); e.push_back("second"); }
    MC_CHECK(x, got == e, "wrong contents of log file: ", i->second);
    x.outcome(mc::hash_str(mc::str(t.text, ntests, reps)));
});

} // unnamed namespace
