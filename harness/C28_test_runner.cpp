// C28: the test runner under all schedules.
#include "sched.hpp"
#include <cstdlib>
#include <filesystem>
#include <map>
#include <optional>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/thread_guard.hpp>
#include <archon/log.hpp>
#include <archon/check.hpp>
#include <archon/check/test_list.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/reporter.hpp>
#include <archon/check/fail_context.hpp>

using namespace archon;

namespace {

enum Beh { b_pass, b_fail, b_throw, b_fail_other, b_throw_any, b_empty, b_fail_throw, num_beh };
const char* const beh_names[] = { "pass", "fail", "throw", "failother", "throwany", "empty", "failthrow" };
struct BehInfo { int checks, failed; bool bad; int fails; };
const BehInfo beh_info[] = { { 2, 0, false, 0 }, { 3, 2, true, 2 }, { 1, 0, true, 1 }, { 3, 3, true, 3 }, { 0, 0, true, 1 }, { 0, 0, false, 0 }, { 1, 1, true, 2 } };

struct TestSpec { std::string name; Beh beh; bool concur, enabled, included; };

struct Callback_failure {};

// All monitoring state is accessed only by the one thread that is allowed to run
struct Monitor {
    mc::Ctx& x;
    std::vector<TestSpec> tests;
    int reps;
    int running = 0, running_nonconcur = 0;
    std::map<std::pair<std::string, int>, int> runs;
    std::map<std::pair<std::string, int>, std::vector<std::string>> messages;
    std::vector<std::string> order;
    int max_running = 0;
    explicit Monitor(mc::Ctx& x_) : x(x_) {}
};
Monitor* M;

void body(check::TestContext& test_context, const TestSpec& t)
{
    {
        sched::Ignore ig;
        if (sched::holds_any_lock()) M->x.fail("test executed while holding a lock");
        if (M->running_nonconcur || (!t.concur && M->running)) M->x.fail("nonconcurrent test executed at the same time as another test");
        ++M->running;
        if (M->running > M->max_running) M->max_running = M->running;
        if (!t.concur) ++M->running_nonconcur;
        if (test_context.test_details.name != t.name) M->x.fail("wrong test details");
        ++M->runs[{ t.name, test_context.repetition_no }];
        M->order.push_back(t.name);
    }
    struct End {
        const TestSpec& t;
        ~End() { sched::Ignore ig; --M->running; if (!t.concur) --M->running_nonconcur; }
    };
    End end { t };
    sched::point();
    test_context.logger.info("msg %s", t.name);
    switch (t.beh) {
        case b_pass:
            ARCHON_CHECK(true);
            ARCHON_CHECK_EQUAL(1, 1);
            break;
        case b_fail:
            test_context.check_general_cond(false, "tests.cpp", 10, "CHECK", "a");
            ARCHON_CHECK(true);
            test_context.check_general_cond(false, "tests.cpp", 20, "CHECK", "b");
            break;
        case b_throw:
            ARCHON_CHECK(true);
            throw std::runtime_error("oops");
        case b_fail_other:
            test_context.check_general_cond(false, "other.cpp", 10, "CHECK", "a");
            test_context.check_general_cond(false, "other.cpp", 20, "CHECK", "b");
            test_context.check_general_cond(false, "another.cpp", 20, "CHECK", "c");
            break;
        case b_throw_any:
            throw 5;
        case b_empty:
            break;
        case b_fail_throw:
            test_context.check_general_cond(false, "tests.cpp", 10, "CHECK", "a");
            throw std::runtime_error("oops");
        case num_beh:
            break;
    }
}

std::vector<std::string> expected_messages(Beh b)
{
    switch (b) {
        case b_fail: return { "tests.cpp:10:CHECK(a) failed", "tests.cpp:20:CHECK(b) failed" };
        case b_throw: return { "tests.cpp:1:Unhandled exception std::runtime_error: oops" };
        case b_fail_other: return { "other.cpp:10:CHECK(a) failed", "other.cpp:20:CHECK(b) failed", "another.cpp:20:CHECK(c) failed" };
        case b_throw_any: return { "tests.cpp:1:Unhandled exception of unknown type" };
        case b_fail_throw: return { "tests.cpp:10:CHECK(a) failed", "tests.cpp:1:Unhandled exception std::runtime_error: oops" };
        default: return {};
    }
}

struct MonReporter : check::Reporter {
    bool inside = false;
    int phase = 0; // 1: after root_begin, 2: after root_end
    std::vector<int> thr;   // 0: not begun, 1: begun, 2: ended
    std::vector<int> execs; // current execution of thread
    std::set<std::pair<std::string, int>> begun, ended;
    std::map<int, std::pair<std::string, int>> cur;
    check::Summary summary = {};
    int throw_at = -1, count = 0;
    bool thrown_by_fail = false;

    struct Enter {
        MonReporter& r;
        explicit Enter(MonReporter& r_, int expected_phase) : r(r_)
        {
            sched::Ignore ig;
            if (r.inside) M->x.fail("reporter function called while another one is executing");
            if (r.phase != expected_phase) M->x.fail("reporter function called in wrong phase");
            r.inside = true;
        }
        void point(bool fail = false)
        {
            sched::point();
            sched::point();
            if (r.count++ == r.throw_at) { r.thrown_by_fail = fail; throw Callback_failure {}; }
        }
        ~Enter() { r.inside = false; }
    };
    void root_begin(const check::RootContext& c) override
    {
        Enter e(*this, 0);
        { sched::Ignore ig; thr.assign(c.num_threads, 0); phase = 1; }
        e.point();
    }
    void thread_begin(const check::ThreadContext& c) override
    {
        Enter e(*this, 1);
        { sched::Ignore ig; if (thr.at(c.thread_index)++ != 0) M->x.fail("thread began twice"); }
        e.point();
    }
    void thread_end(const check::ThreadContext& c) override
    {
        Enter e(*this, 1);
        { sched::Ignore ig; if (thr.at(c.thread_index)++ != 1) M->x.fail("thread ended in wrong state"); if (cur.count(c.thread_index)) M->x.fail("thread ended during test"); }
        e.point();
    }
    void begin(const check::TestContext& c, log::Logger& l) override
    {
        Enter e(*this, 1);
        {
            sched::Ignore ig;
            if (thr.at(c.thread_context.thread_index) != 1) M->x.fail("test began outside thread");
            std::pair<std::string, int> key(std::string(c.test_details.name), c.repetition_no);
            if (!begun.insert(key).second) M->x.fail("test began twice");
            if (!cur.emplace(c.thread_context.thread_index, key).second) M->x.fail("test began before end of previous one");
        }
        e.point();
    }
    void fail(const check::FailContext& c, std::string_view message, log::Logger&) override
    {
        Enter e(*this, 1);
        {
            sched::Ignore ig;
            auto i = cur.find(c.test_context.thread_context.thread_index);
            std::pair<std::string, int> key(std::string(c.test_context.test_details.name), c.test_context.repetition_no);
            if (i == cur.end() || i->second != key) M->x.fail("failure reported outside test");
            if (c.mapped_file_path != c.location.file_path) M->x.fail(mc::str("wrong mapped path ", std::string(c.mapped_file_path)));
            M->messages[key].push_back(mc::str(std::string(c.mapped_file_path), ":", c.location.line_number, ":", std::string(message)));
        }
        e.point(true);
    }
    void end(const check::TestContext& c, double t, log::Logger&) override
    {
        Enter e(*this, 1);
        {
            sched::Ignore ig;
            auto i = cur.find(c.thread_context.thread_index);
            std::pair<std::string, int> key(std::string(c.test_details.name), c.repetition_no);
            if (i == cur.end() || i->second != key) M->x.fail("test ended that had not begun");
            cur.erase(i);
            ended.insert(key);
            if (!(t >= 0)) M->x.fail("negative time");
        }
        e.point();
    }
    void root_end(const check::RootContext&, const check::Summary& s) override
    {
        Enter e(*this, 1);
        { sched::Ignore ig; phase = 2; summary = s; for (int v : thr) if (v != 2) M->x.fail("root ended before thread"); }
        e.point();
    }
};

struct CaptureLogger : log::RootLogger {
    std::vector<std::string> lines;
    CaptureLogger() : log::RootLogger(std::locale::classic()) {}
    void root_log(std::string_view m) override { lines.emplace_back(m); sched::point(); }
};

struct Filter : check::Filter {
    bool include(const check::TestDetails& d) const noexcept override
    {
        for (auto& t : M->tests) if (t.name == d.name) return t.included;
        return false;
    }
};
struct Order : check::TestOrder { // Reverse
    bool less(const check::TestDetails& a, const check::TestDetails& b) const noexcept override { return a.name > b.name; }
};

std::string base_dir() { const char* p = std::getenv("MC_TMP"); return p ? p : "."; }

struct Conf { int reps, threads; bool shuffle = false, order = false; int throw_at = -1; bool log = false; };

void execute(mc::Ctx& x, std::vector<TestSpec> tests, Conf c)
{
    Monitor m(x);
    m.tests = tests;
    m.reps = c.reps;
    M = &m;
    for (auto& t : tests)
        MC_TRACE(x, t.name, "=", beh_names[t.beh], t.concur ? "" : "/nonconcur", t.enabled ? "" : "/disabled", t.included ? "" : "/excluded", " ");
    MC_TRACE(x, "reps=", c.reps, " threads=", c.threads, c.shuffle ? " shuffle" : "", c.order ? " order" : "", c.throw_at >= 0 ? mc::str(" reporter throws at ", c.throw_at) : "", "; ");
    check::TestList list;
    auto disabled = +[] { return false; };
    for (auto& t : tests)
        list.add(t.name, "tests.cpp", 1, [&t](check::TestContext& tc) { body(tc, t); }, t.enabled ? nullptr : disabled, t.concur);
    MonReporter rep;
    rep.throw_at = c.throw_at;
    CaptureLogger logger;
    Filter filter;
    Order order;
    check::TestConfig config;
    config.num_repetitions = c.reps;
    config.num_threads = c.threads;
    config.shuffle = c.shuffle;
    config.test_list = &list;
    config.filter = &filter;
    if (c.order) config.test_order = &order;
    config.logger = &logger;
    if (c.log) config.inner_log_level_limit = log::LogLevel::info;
    config.reporter = &rep;
    config.test_file_base_dir = base_dir();
    bool ret = false, thrown = false;
    std::uint64_t switches;
    {
        sched::Session ses(x);
        check::TestRunner runner(std::locale::classic(), config);
        try {
            ret = runner.run();
        }
        catch (Callback_failure&) {
            thrown = true;
        }
        switches = sched::switches();
    }
    if (c.throw_at >= 0) {
        // When a check fails to report a failure, it is the test that fails
        bool threw = rep.count > c.throw_at;
        if (!rep.thrown_by_fail) MC_CHECK(x, thrown == threw, "exception thrown by reporter was not passed on");
        else MC_CHECK(x, thrown || !ret, "failed test not reported in result");
    }
    if (thrown || rep.thrown_by_fail) {
        x.outcome(1);
        x.step(rep.count);
        return;
    }
    MC_CHECK(x, rep.phase == 2, "root_end() not called");
    long disabled_n = 0, excluded = 0, selected = 0, execs = 0, failed_execs = 0;
    long long checks = 0, failed_checks = 0;
    std::vector<std::string> exp_order, sel;
    for (auto& t : tests) {
        if (!t.enabled) { ++disabled_n; continue; }
        if (!t.included) { ++excluded; continue; }
        ++selected;
        sel.push_back(t.name);
    }
    if (c.order) std::reverse(sel.begin(), sel.end());
    for (auto& t : tests) {
        bool s = t.enabled && t.included;
        for (int r = 1; r <= c.reps; ++r) {
            std::pair<std::string, int> key(t.name, r);
            int n = m.runs.count(key) ? m.runs[key] : 0;
            MC_CHECK(x, n == (s ? 1 : 0), "test ", t.name, " was executed ", n, " times in repetition ", r);
            MC_CHECK(x, rep.begun.count(key) == std::size_t(n) && rep.ended.count(key) == std::size_t(n), "begin and end reports");
            if (!s) continue;
            ++execs;
            const BehInfo& b = beh_info[t.beh];
            checks += b.checks;
            failed_checks += b.failed;
            failed_execs += b.bad;
            MC_CHECK(x, m.messages[key] == expected_messages(t.beh), "reported failures of ", t.name);
        }
    }
    MC_CHECK(x, long(m.runs.size()) == execs);
    const check::Summary& s = rep.summary;
    MC_CHECK(x, s.num_disabled_tests == disabled_n, s.num_disabled_tests);
    MC_CHECK(x, s.num_excluded_tests == excluded, s.num_excluded_tests);
    MC_CHECK(x, s.num_selected_tests == selected, s.num_selected_tests);
    MC_CHECK(x, s.num_test_executions == execs, s.num_test_executions);
    MC_CHECK(x, s.num_failed_test_executions == failed_execs, "failed executions: ", s.num_failed_test_executions, ", expected: ", failed_execs);
    MC_CHECK(x, s.num_checks == checks, "checks: ", s.num_checks, ", expected: ", checks);
    MC_CHECK(x, s.num_failed_checks == failed_checks, "failed checks: ", s.num_failed_checks, ", expected: ", failed_checks);
    MC_CHECK(x, ret == (failed_execs == 0), "verdict: ", ret);
    MC_CHECK(x, int(rep.thr.size()) <= c.threads, "too many threads");
    if (c.threads == 1 && !c.shuffle) {
        for (int r = 0; r < c.reps; ++r) exp_order.insert(exp_order.end(), sel.begin(), sel.end());
        MC_CHECK(x, m.order == exp_order, "wrong order of execution");
    }
    if (c.log) {
        std::size_t n = 0;
        for (auto& l : logger.lines) {
            std::size_t i = l.find("msg ");
            if (i == l.npos) continue;
            ++n;
            MC_CHECK(x, l.back() == '\n' && l.find("\n") == l.size() - 1, "garbled log line: ", l);
            MC_CHECK(x, (l.substr(0, 7) == "Thread[") == (rep.thr.size() > 1), "log line: ", l);
        }
        MC_CHECK(x, n == std::size_t(execs), "number of messages logged by tests: ", n);
    }
    std::uint64_t h = 0;
    for (auto& o : m.order) h = mc::mix(h, mc::hash_str(o));
    x.outcome(mc::mix(h, m.max_running));
    x.step(rep.count);
}

TestSpec make(int i, Beh b, bool concur) { return { mc::str("T", i), b, concur, true, true }; }

// All lists of up to 3 tests with all behaviors
mc::Scenario s1("lists", 64, [](mc::Ctx& x) {
    int n = x.choose(4);
    std::vector<TestSpec> tests;
    int nb = n == 1 || x.thorough ? int(num_beh) : n == 2 ? 5 : 2;
    for (int i = 0; i < n; ++i) {
        Beh b = Beh(x.choose(nb));
        bool concur = x.choose(2) == 0;
        tests.push_back(make(i, b, concur));
    }
    Conf c { 1, 1 + x.choose(3) };
    x.shard_point();
    c.log = n == 2;
    execute(x, tests, c);
});

// Repetitions, shuffling, ordering, filtering, with passing and failing tests
mc::Scenario s2("configs", 64, [](mc::Ctx& x) {
    int n = 1 + x.choose(3);
    std::vector<TestSpec> tests;
    for (int i = 0; i < n; ++i) {
        TestSpec t = make(i, x.choose(2) ? b_fail : b_pass, true);
        switch (x.choose(4)) {
            case 1: t.concur = false; break;
            case 2: t.enabled = false; break;
            case 3: t.included = false; break;
        }
        tests.push_back(t);
    }
    Conf c { x.choose(4), 1 + x.choose(3) };
    if (!x.thorough && (n * c.reps > 4 || (n == 3 && c.reps > 1))) x.prune();
    switch (x.choose(3)) {
        case 1: c.shuffle = true; break;
        case 2: c.order = true; break;
    }
    x.shard_point();
    execute(x, tests, c);
});

// Reporter function fails
mc::Scenario s3("reporter_failure", 64, [](mc::Ctx& x) {
    int n = 1 + x.choose(2);
    std::vector<TestSpec> tests;
    for (int i = 0; i < n; ++i) {
        Beh b = Beh(x.choose(3));
        bool concur = x.choose(2) == 0;
        tests.push_back(make(i, b, concur));
    }
    Conf c { 1 + x.choose(2), 1 + x.choose(3) };
    c.throw_at = x.choose(x.thorough ? 16 : 12);
    if (!x.thorough && n * c.reps > 2) x.prune();
    x.shard_point();
    execute(x, tests, c);
});

// Checks performed by several threads on behalf of one test, while another test executes
mc::Scenario s4("multithreaded_test", 32, [](mc::Ctx& x) {
    int threads = 1 + x.choose(2);
    int kind = x.choose(4); // succeeding / failing, same file / other file
    int others = x.choose(2);
    x.shard_point();
    check::TestList list;
    int n_fail = 0;
    auto chk = [&](check::TestContext& tc, int id) {
        if (kind == 0) tc.check_general_cond(true, "tests.cpp", 10, "CHECK", "a");
        else if (kind == 1) tc.check_general_cond(false, "tests.cpp", 10, "CHECK", "a");
        else if (kind == 2) tc.check_general_cond(false, "other.cpp", 10, "CHECK", "a");
        else tc.check_general_cond(false, id == 0 ? "other.cpp" : "another.cpp", 10, "CHECK", "a");
    };
    list.add("T0", "tests.cpp", 1, [&](check::TestContext& tc) {
        core::ThreadGuard a([&] { chk(tc, 0); });
        core::ThreadGuard b([&] { chk(tc, 1); chk(tc, 1); });
        a.join_and_rethrow();
        b.join_and_rethrow();
    });
    for (int i = 0; i < others; ++i)
        list.add("T1", "tests.cpp", 1, [&](check::TestContext& tc) { tc.check_general_cond(true, "tests.cpp", 10, "CHECK", "a"); });
    struct Rep : check::Reporter {
        mc::Ctx& x;
        bool inside = false;
        int fails = 0, bad_path = 0;
        check::Summary s = {};
        Rep(mc::Ctx& x_) : x(x_) {}
        void fail(const check::FailContext& c, std::string_view, log::Logger&) override
        {
            { sched::Ignore ig; if (inside) x.fail("overlapping reporter calls"); inside = true; }
            sched::point();
            { sched::Ignore ig; inside = false; ++fails; if (c.mapped_file_path != c.location.file_path) x.fail("wrong path in failure report"); }
        }
        void root_end(const check::RootContext&, const check::Summary& s_) override { s = s_; }
    };
    Rep rep(x);
    check::TestConfig config;
    config.num_threads = threads;
    config.test_list = &list;
    config.logger = &log::Logger::get_null();
    config.reporter = &rep;
    config.test_file_base_dir = base_dir();
    MC_TRACE(x, "threads=", threads, " kind=", kind, " others=", others, "; ");
    sched::Session ses(x);
    check::TestRunner runner(std::locale::classic(), config);
    bool ret = runner.run();
    MC_CHECK(x, rep.s.num_checks == 3 + others, "checks: ", rep.s.num_checks);
    MC_CHECK(x, rep.s.num_failed_checks == (kind ? 3 : 0) && rep.fails == rep.s.num_failed_checks, "failed checks: ", rep.s.num_failed_checks);
    MC_CHECK(x, ret == (kind == 0) && rep.s.num_failed_test_executions == (kind ? 1 : 0));
    x.outcome(mc::mix(sched::switches(), kind));
    x.step();
});
}
