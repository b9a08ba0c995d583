// C29: check operations (check/test_context.hpp, check/check_macros.hpp) over mixed types.
// Oracle: exact arithmetic (128-bit integers, scaled dyadic numbers, long double comparison of
// values that long double represents exactly).
#include "mc.hpp"
#include <cmath>
#include <cfloat>
#include <cstdlib>
#include <limits>
#include <list>
#include <locale>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/inexact_compare.hpp>
#include <archon/log.hpp>
#include <archon/check.hpp>
#include <archon/check/test_list.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/reporter.hpp>
#include <archon/check/fail_context.hpp>
using namespace archon;

namespace {

using LD = long double;
static_assert(LDBL_MANT_DIG >= 64); // All integers and floating point values of the tested types are exact

// ---- Macros in an executing test

struct Report { std::string path, message; long line; };
struct Rep : check::Reporter {
    std::vector<Report> fails;
    std::optional<check::Summary> summary;
    void fail(const check::FailContext& c, std::string_view message, log::Logger&) override
    {
        fails.push_back({ std::string(c.location.file_path), std::string(message), long(c.location.line_number) });
    }
    void root_end(const check::RootContext&, const check::Summary& s) override { summary = s; }
};

// Carry out checks in a test; count() is called after each check
struct Runner {
    mc::Ctx& x;
    Rep rep;
    long long checks = 0, failed = 0;
    explicit Runner(mc::Ctx& x_) : x(x_) {}
    void after(bool result, bool expected, const std::string& message, long line, const char* what)
    {
        ++checks;
        x.eval();
        MC_CHECK(x, result == expected, what, " returns ", result, ", expected ", expected);
        if (expected) { MC_CHECK(x, (long long)(rep.fails.size()) == failed, what, ": passing check reported as failed: ", rep.fails.back().message); return; }
        ++failed;
        MC_CHECK(x, (long long)(rep.fails.size()) == failed, what, ": failed check reported ", (long long)(rep.fails.size()) - failed + 1, " times");
        const Report& r = rep.fails.back();
        MC_CHECK(x, r.message == message, "message is \"", r.message, "\", expected \"", message, "\"");
        MC_CHECK(x, r.path == __FILE__ && r.line == line, "failure reported at ", r.path, ":", r.line, ", expected line ", line);
    }
    template<class F> void run(F body)
    {
        check::TestList list;
        list.add("Foo", "tests.cpp", 1, [&](check::TestContext& tc) { body(tc, *this); }, nullptr, false);
        check::TestConfig config;
        config.num_threads = 1;
        config.test_list = &list;
        config.logger = &log::Logger::get_null();
        config.reporter = &rep;
        const char* p = std::getenv("MC_TMP");
        config.test_file_base_dir = std::filesystem::path(p ? p : ".");
        check::TestRunner runner(std::locale::classic(), config);
        bool r = runner.run();
        MC_CHECK(x, rep.summary, "no summary");
        MC_CHECK(x, rep.summary->num_checks == checks, rep.summary->num_checks, " checks counted, expected ", checks);
        MC_CHECK(x, rep.summary->num_failed_checks == failed, rep.summary->num_failed_checks, " failed checks counted, expected ", failed);
        MC_CHECK(x, rep.summary->num_failed_test_executions == (failed > 0), "test failure");
        MC_CHECK(x, r == (failed == 0), "result of test run is ", r);
    }
};

std::string val(int v) { return mc::str(v); }
std::string val(unsigned v) { return mc::str(v); }
std::string val(signed char v) { return mc::str(int(v)); }
std::string val(unsigned long v) { return mc::str(v); }
std::string val(double v) { std::ostringstream o; o.precision(std::numeric_limits<double>::digits10 + 1); o << v; return o.str(); }
std::string val(const std::string& v) { return "\"" + v + "\""; }

template<class T> std::vector<T> some();
template<> std::vector<int> some() { return { -1, 0, 1, INT_MIN, INT_MAX }; }
template<> std::vector<unsigned> some() { return { 0, 1, 2, UINT_MAX }; }
template<> std::vector<signed char> some() { return { -128, -1, 0, 1, 127 }; }
template<> std::vector<unsigned long> some() { return { 0, 1, ULONG_MAX }; }
template<> std::vector<double> some() { return { -1, 0, 0.5, 1, 4294967295.0 }; }
template<> std::vector<std::string> some() { return { "", "a", "ab", "b c" }; }

bool cmp_lt(const std::string& a, const std::string& b) { return a < b; }
template<class A, class B> bool cmp_lt(A a, B b) { return LD(a) < LD(b); }
bool cmp_eq(const std::string& a, const std::string& b) { return a == b; }
template<class A, class B> bool cmp_eq(A a, B b) { return LD(a) == LD(b); }

#define ONE(macro, args, exp, msg) do { int n_ = 0; auto c_ = [&](const auto& v) -> decltype(auto) { ++n_; return v; }; static_cast<void>(c_); bool r_ = macro args; long l_ = __LINE__; r.after(r_, exp, msg, l_, #macro); } while (false)

template<class A, class B> void macros2(mc::Ctx& x)
{
    Runner rr(x);
    rr.run([&](check::TestContext& test_context, Runner& r) {
        for (const A& a : some<A>())
            for (const B& b : some<B>()) {
                bool lt = cmp_lt(a, b), eq = cmp_eq(a, b);
                auto m = [&](const char* n) { return mc::str(n, "(a, b) failed with (", val(a), ", ", val(b), ")"); };
                ONE(ARCHON_CHECK_EQUAL, (a, b), eq, m("ARCHON_CHECK_EQUAL"));
                ONE(ARCHON_CHECK_NOT_EQUAL, (a, b), !eq, m("ARCHON_CHECK_NOT_EQUAL"));
                ONE(ARCHON_CHECK_LESS, (a, b), lt, m("ARCHON_CHECK_LESS"));
                ONE(ARCHON_CHECK_LESS_EQUAL, (a, b), lt || eq, m("ARCHON_CHECK_LESS_EQUAL"));
                ONE(ARCHON_CHECK_NOT_LESS, (a, b), !lt, m("ARCHON_CHECK_NOT_LESS"));
                ONE(ARCHON_CHECK_NOT_LESS_EQUAL, (a, b), !(lt || eq), m("ARCHON_CHECK_NOT_LESS_EQUAL"));
                ONE(ARCHON_CHECK_GREATER, (a, b), !(lt || eq), m("ARCHON_CHECK_GREATER"));
                ONE(ARCHON_CHECK_GREATER_EQUAL, (a, b), !lt, m("ARCHON_CHECK_GREATER_EQUAL"));
                ONE(ARCHON_CHECK_NOT_GREATER, (a, b), lt || eq, m("ARCHON_CHECK_NOT_GREATER"));
                ONE(ARCHON_CHECK_NOT_GREATER_EQUAL, (a, b), lt, m("ARCHON_CHECK_NOT_GREATER_EQUAL"));
                auto my_comp = [&](const A& c, const B& d) { return cmp_lt(c, d); };
                ONE(ARCHON_CHECK_COMPARE, (a, b, my_comp), lt, mc::str("ARCHON_CHECK_COMPARE(a, b, my_comp) failed with (", val(a), ", ", val(b), ", my_comp)"));
                ONE(ARCHON_CHECK, (bool(eq)), eq, "ARCHON_CHECK(bool(eq)) failed");
                ONE(ARCHON_CHECK_NOT, (bool(lt)), !lt, "ARCHON_CHECK_NOT(bool(lt)) failed");
                if constexpr (std::is_arithmetic_v<A> && std::is_arithmetic_v<B>) {
                    constexpr bool fl = std::is_floating_point_v<A> || std::is_floating_point_v<B>;
                    for (int d : { -1, 0, 1, 2, INT_MAX }) {
                        LD w = LD(a) - LD(b);
                        if (w < 0) w = -w;
                        if (fl && LD(double(a)) != LD(a)) continue;
                        if (fl && LD(double(b)) != LD(b)) continue;
                        if (fl && LD(double(a) - double(b)) != LD(a) - LD(b)) continue;
                        bool dl = w < LD(d), de = w == LD(d);
                        auto m3 = [&](const char* n) { return mc::str(n, "(a, b, d) failed with (", val(a), ", ", val(b), ", ", val(d), ")"); };
                        ONE(ARCHON_CHECK_DIST_LESS, (a, b, d), dl, m3("ARCHON_CHECK_DIST_LESS"));
                        ONE(ARCHON_CHECK_DIST_LESS_EQUAL, (a, b, d), dl || de, m3("ARCHON_CHECK_DIST_LESS_EQUAL"));
                        ONE(ARCHON_CHECK_DIST_NOT_LESS, (a, b, d), !dl, m3("ARCHON_CHECK_DIST_NOT_LESS"));
                        ONE(ARCHON_CHECK_DIST_NOT_LESS_EQUAL, (a, b, d), !(dl || de), m3("ARCHON_CHECK_DIST_NOT_LESS_EQUAL"));
                        ONE(ARCHON_CHECK_DIST_GREATER, (a, b, d), !(dl || de), m3("ARCHON_CHECK_DIST_GREATER"));
                        ONE(ARCHON_CHECK_DIST_GREATER_EQUAL, (a, b, d), !dl, m3("ARCHON_CHECK_DIST_GREATER_EQUAL"));
                        ONE(ARCHON_CHECK_DIST_NOT_GREATER, (a, b, d), dl || de, m3("ARCHON_CHECK_DIST_NOT_GREATER"));
                        ONE(ARCHON_CHECK_DIST_NOT_GREATER_EQUAL, (a, b, d), dl, m3("ARCHON_CHECK_DIST_NOT_GREATER_EQUAL"));
                        bool bt = LD(d) <= LD(a) && LD(a) <= LD(b);
                        auto mb = [&](const char* n) { return mc::str(n, "(a, d, b) failed with (", val(a), ", ", val(d), ", ", val(b), ")"); };
                        ONE(ARCHON_CHECK_BETWEEN, (a, d, b), bt, mb("ARCHON_CHECK_BETWEEN"));
                        ONE(ARCHON_CHECK_NOT_BETWEEN, (a, d, b), !bt, mb("ARCHON_CHECK_NOT_BETWEEN"));
                    }
                }
            }
    });
}
using Fn = void (*)(mc::Ctx&);
template<class... T> struct L {};
template<class A, class... B> void row(std::vector<Fn>& v, L<B...>) { (v.push_back(&macros2<A, B>), ...); }
template<class... T> std::vector<Fn> grid(L<T...> l) { std::vector<Fn> v; (row<T>(v, l), ...); return v; }

mc::Scenario s_macros("macros", 4, [](mc::Ctx& x) {
    static const auto f = [] { auto v = grid(L<int, unsigned, signed char, unsigned long, double>()); v.push_back(&macros2<std::string, std::string>); return v; }();
    int i = x.choose(int(f.size()));
    x.shard_point();
    f[std::size_t(i)](x);
    x.outcome(std::uint64_t(i));
});

// Inexact comparison: a and b multiples of 1/4, epsilon multiple of 1/8
mc::Scenario s_inexact("inexact", 1, [](mc::Ctx& x) {
    Runner rr(x);
    rr.run([&](check::TestContext& test_context, Runner& r) {
        for (int i = -9; i <= 9; ++i)
            for (int j = -9; j <= 9; ++j)
                for (int k : { -1, 0, 1, 2, 4, 8, 9 }) {
                    double a = i / 4.0, b = j / 4.0;
                    double e = k / 8.0;
                    int d = std::abs(i - j) * 8; // In units of 1/32
                    int mx = std::max(std::abs(i), std::abs(j)) * k, mn = std::min(std::abs(i), std::abs(j)) * k;
                    auto m = [&](const char* n) { return mc::str(n, "(a, b, e) failed with (", val(a), ", ", val(b), ", ", val(e), ")"); };
                    ONE(ARCHON_CHECK_APPROXIMATELY_EQUAL, (a, b, e), d <= mx, m("ARCHON_CHECK_APPROXIMATELY_EQUAL"));
                    ONE(ARCHON_CHECK_ESSENTIALLY_EQUAL, (a, b, e), d <= mn, m("ARCHON_CHECK_ESSENTIALLY_EQUAL"));
                    ONE(ARCHON_CHECK_NOT_APPROXIMATELY_EQUAL, (a, b, e), d > mx, m("ARCHON_CHECK_NOT_APPROXIMATELY_EQUAL"));
                    ONE(ARCHON_CHECK_NOT_ESSENTIALLY_EQUAL, (a, b, e), d > mn, m("ARCHON_CHECK_NOT_ESSENTIALLY_EQUAL"));
                    bool dl = (j - i) * 8 > mx, dg = (i - j) * 8 > mx;
                    ONE(ARCHON_CHECK_DEFINITELY_LESS, (a, b, e), dl, m("ARCHON_CHECK_DEFINITELY_LESS"));
                    ONE(ARCHON_CHECK_NOT_DEFINITELY_LESS, (a, b, e), !dl, m("ARCHON_CHECK_NOT_DEFINITELY_LESS"));
                    ONE(ARCHON_CHECK_DEFINITELY_GREATER, (a, b, e), dg, m("ARCHON_CHECK_DEFINITELY_GREATER"));
                    ONE(ARCHON_CHECK_NOT_DEFINITELY_GREATER, (a, b, e), !dg, m("ARCHON_CHECK_NOT_DEFINITELY_GREATER"));
                }
        double nan = std::numeric_limits<double>::quiet_NaN();
        for (int w = 1; w < 8; ++w) {
            double a = w & 1 ? nan : 1, b = w & 2 ? nan : 1, e = w & 4 ? nan : 1;
            r.checks += 4;
            bool t = ARCHON_CHECK_NOT_APPROXIMATELY_EQUAL(a, b, e) && ARCHON_CHECK_NOT_ESSENTIALLY_EQUAL(a, b, e) && ARCHON_CHECK_NOT_DEFINITELY_LESS(a, b, e) && ARCHON_CHECK_NOT_DEFINITELY_GREATER(a, b, e);
            MC_CHECK(x, t, "inexact comparison succeeds with NaN");
        }
    });
});

// ---- Sequences

template<class A, class B> void seqs(mc::Ctx& x)
{
    auto make = [&](auto& c) {
        int n = x.choose(4);
        for (int i = 0; i < n; ++i) c.insert(c.end(), typename std::remove_reference_t<decltype(c)>::value_type(x.choose(3)) - 1);
        return n;
    };
    A a;
    B b;
    int na = make(a), nb = make(b);
    std::vector<LD> p, q;
    for (auto v : a) p.push_back(LD(v));
    for (auto v : b) q.push_back(LD(v));
    for (int kind : { 0, 1 }) {
        auto ok = [&](LD c, LD d) { return kind ? c <= d : c == d; };
        int i = 0;
        while (i < na && i < nb && ok(p[std::size_t(i)], q[std::size_t(i)])) ++i;
        bool good = i == na && i == nb;
        auto num = [](LD v) { std::ostringstream o; o.precision(20); o << v; return o.str(); };
        std::string m = kind ? "ARCHON_CHECK_COMPARE_SEQ(a, b, comp)" : "ARCHON_CHECK_EQUAL_SEQ(a, b)";
        m += mc::str(" failed: Mismatch at index ", i, ": ");
        if (i < na && i < nb) m += num(p[std::size_t(i)]) + " vs " + num(q[std::size_t(i)]);
        else if (i < na) m += "Extra elements in first sequence (starting with " + num(p[std::size_t(i)]) + ")";
        else if (i < nb) m += "Extra elements in second sequence (starting with " + num(q[std::size_t(i)]) + ")";
        Runner rr(x);
        rr.run([&](check::TestContext& test_context, Runner& r) {
            auto comp = [](auto c, auto d) { return LD(c) <= LD(d); };
            if (kind) ONE(ARCHON_CHECK_COMPARE_SEQ, (a, b, comp), good, m);
            else ONE(ARCHON_CHECK_EQUAL_SEQ, (a, b), good, m);
        });
    }
    x.outcome(mc::hash_str(mc::str(na, nb)));
}
mc::Scenario s_seqs("sequences", 4, [](mc::Ctx& x) {
    int t = x.choose(4);
    x.shard_point();
    switch (t) {
        case 0: return seqs<std::vector<int>, std::vector<int>>(x);
        case 1: return seqs<std::vector<int>, std::vector<unsigned>>(x);
        case 2: return seqs<std::vector<unsigned long>, std::vector<signed char>>(x);
        default: return seqs<std::vector<double>, std::vector<int>>(x);
    }
});

// ---- Exceptions, and sequences of checks

struct Base : std::runtime_error { using std::runtime_error::runtime_error; int v = 7; };
struct Derived : Base { using Base::Base; };
void act(int k)
{
    switch (k) {
        case 1: throw Base("base");
        case 2: throw Derived("derived");
        case 3: throw std::logic_error("logic");
        case 4: throw 5;
    }
}

mc::Scenario s_nothrow("nothrow-message", 1, [](mc::Ctx& x) {
    int k = x.range(1, 4);
    Runner rr(x);
    rr.run([&](check::TestContext& test_context, Runner& r) {
        bool ok = ARCHON_CHECK_NOTHROW(act(k)); long l = __LINE__;
        std::string m = r.rep.fails.empty() ? "" : r.rep.fails.back().message;
        r.after(ok, false, m, l, "ARCHON_CHECK_NOTHROW");
        if (m.starts_with("ARCHON_CHECK_THROW_ANY(act(k)) failed: Did throw "))
            x.fail_keyed("nothrow-macro-name", "failed ARCHON_CHECK_NOTHROW(act(k)) is reported as: " + m);
        else
            MC_CHECK(x, m.starts_with("ARCHON_CHECK_NOTHROW(act(k)) failed: Did throw "), "message is \"", m, "\"");
    });
    x.outcome(std::uint64_t(k));
});

mc::Scenario s_seq("check-sequences", 8, [](mc::Ctx& x) {
    int n = x.range(0, x.thorough ? 4 : 3);
    std::vector<std::pair<int, int>> ops;
    for (int i = 0; i < n; ++i) { int op = x.choose(7); ops.emplace_back(op, x.choose(op < 5 ? 5 : 2)); }
    x.shard_point();
    Runner rr(x);
    bool stop = false;
    rr.run([&](check::TestContext& test_context, Runner& r) {
        for (auto [op, k] : ops) {
            bool base = k == 1 || k == 2;
            try {
                switch (op) {
                    case 0: ONE(ARCHON_CHECK_THROW, (act(k), Base), base, "ARCHON_CHECK_THROW(act(k), Base) failed: Did not throw"); break;
                    case 1: ONE(ARCHON_CHECK_THROW_EX, (act(k), Base, e.v == 7), base, "ARCHON_CHECK_THROW_EX(act(k), Base, e.v == 7) failed: Did not throw"); break;
                    case 2: ONE(ARCHON_CHECK_THROW_EX, (act(k), Base, e.v == 8), false, mc::str("ARCHON_CHECK_THROW_EX(act(k), Base, e.v == 8) failed: ", base ? "Did throw, but condition failed" : "Did not throw")); break;
                    case 3: ONE(ARCHON_CHECK_THROW_ANY, (act(k)), k != 0, "ARCHON_CHECK_THROW_ANY(act(k)) failed: Did not throw"); break;
                    case 4: {
                        std::size_t before = r.rep.fails.size();
                        bool ok = ARCHON_CHECK_NOTHROW(act(k)); long l = __LINE__;
                        std::string m = r.rep.fails.size() > before ? r.rep.fails.back().message : "";
                        std::string pre = "ARCHON_CHECK_NOTHROW(act(k)) failed: Did throw ";
                        // The macro name is checked by scenario nothrow-message
                        if (m.starts_with("ARCHON_CHECK_THROW_ANY(")) m = "ARCHON_CHECK_NOTHROW(" + m.substr(23);
                        MC_CHECK(x, k == 0 || m.substr(0, pre.size()) == pre, "message is \"", m, "\"");
                        if (k >= 1 && k <= 3) {
                            MC_CHECK(x, m.ends_with(k == 1 ? ": base" : k == 2 ? ": derived" : ": logic"), "message is \"", m, "\"");
                            MC_CHECK(x, m.find(k == 1 ? "Base" : k == 2 ? "Derived" : "logic_error") != m.npos, "message is \"", m, "\"");
                        }
                        r.after(ok, k == 0, r.rep.fails.size() > before ? r.rep.fails.back().message : "", l, "ARCHON_CHECK_NOTHROW");
                        break;
                    }
                    case 5: ONE(ARCHON_CHECK, (k), bool(k), "ARCHON_CHECK(k) failed"); break;
                    case 6: ONE(ARCHON_CHECK_NOT, (k), !k, "ARCHON_CHECK_NOT(k) failed"); break;
                }
            }
            catch (std::logic_error&) { MC_CHECK(x, op <= 2 && k == 3, "check throws"); stop = true; }
            catch (int) { MC_CHECK(x, op <= 2 && k == 4, "check throws"); stop = true; }
            if (op <= 2 && k >= 3) { MC_CHECK(x, stop, "exception of other type swallowed"); stop = false; }
            x.step();
        }
    });
    x.outcome(std::uint64_t(rr.failed * 10 + rr.checks));
});

} // unnamed namespace
