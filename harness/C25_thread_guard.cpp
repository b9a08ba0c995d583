// C25: histories of operations on up to two thread guards, under all schedules.
#include "sched.hpp"
#include <array>
#include <memory>
#include <optional>
#include <string>
#include <csignal>
#include <pthread.h>
#include <thread>
#include <archon/core/assert.hpp>
#include <archon/core/thread_guard.hpp>

using namespace archon;

namespace {

struct Error { int id; };

struct Job {
    bool throws = false;
    int steps = 0;      // 0: not run, 1: started, 2: ended
    int data = 0;       // written by thread, read after join (subject to race detection)
    bool blocked = false;
    std::string name;
    bool rethrown = false;
};

struct Func { // Move-only, owns something that must stay alive during execution
    std::unique_ptr<int> own;
    Job* job;
    void operator()() const
    {
        {
            sched::Ignore ig;
            job->steps = 1;
            sigset_t m;
            pthread_sigmask(SIG_BLOCK, nullptr, &m);
            job->blocked = sigismember(&m, SIGUSR1) && sigismember(&m, SIGTERM);
            char b[64];
            pthread_getname_np(pthread_self(), b, sizeof b);
            job->name = b;
        }
        sched::point();
        job->data = *own;
        {
            sched::Ignore ig;
            job->steps = 2;
        }
        if (job->throws) throw Error { *own };
    }
};

int num_failures = 0;

int fail_create()
{
    if (mc::current()->deviate(2) == 0) return 0;
    ++num_failures;
    return EAGAIN;
}

void run(mc::Ctx& x)
{
    const int max_ops = x.thorough ? 5 : 4;
    num_failures = 0;
    sigset_t mask0, mask1;
    pthread_sigmask(SIG_BLOCK, nullptr, &mask0);
    std::array<Job, 8> jobs;
    int njobs = 0;
    std::array<int, 2> model = { -1, -1 };   // job of guard
    std::array<bool, 2> joined = { true, true };
    {
        sched::Session ses(x);
        sched::create_hook = fail_create;
        std::array<std::optional<core::ThreadGuard>, 2> g;
        auto check_done = [&](int g_) { // Thread of guard must have terminated
            int j = model[g_];
            if (j < 0) return;
            MC_CHECK(x, jobs[j].steps == 2, "thread ", j, " has not ended");
            MC_CHECK(x, jobs[j].data == 100 + j, "effects of thread ", j, " not visible");
        };
        auto drop = [&](int g_) { model[g_] = -1; joined[g_] = true; };
        int num = 0;
        for (; num < max_ops; ++num) {
            int op = x.choose(10);
            if (num == 1) x.shard_point();
            if (op == 0) break;
            int i = x.choose(2);
            if (num == 0 && i == 1) x.prune(); // symmetric
            core::ThreadGuard* p = g[i] ? &*g[i] : nullptr;
            switch (op) {
                case 1: case 2: case 3: { // construct (ok, throwing, with configuration)
                    if (p || njobs == 3) x.prune();
                    int j = njobs++;
                    Job& job = jobs[j];
                    job.throws = op != 1;
                    MC_TRACE(x, "g", i, " = new job ", j, op == 1 ? "" : " (throws)", "; ");
                    try {
                        if (op == 3) {
                            core::ThreadGuard::Config c;
                            c.block_signals = true;
                            c.thread_name = core::ThreadGuard::ThreadName("managed-thread-name-too-long");
                            g[i].emplace(Func { std::make_unique<int>(100 + j), &job }, std::move(c));
                        }
                        else {
                            g[i].emplace(Func { std::make_unique<int>(100 + j), &job });
                        }
                        model[i] = j;
                        joined[i] = false;
                    }
                    catch (std::system_error&) {
                        MC_CHECK(x, num_failures > 0, "unexpected failure");
                        MC_CHECK(x, job.steps == 0, "thread was executed in spite of failure");
                    }
                    pthread_sigmask(SIG_BLOCK, nullptr, &mask1);
                    for (int s = 1; s < 32; ++s)
                        MC_CHECK(x, sigismember(&mask0, s) == sigismember(&mask1, s), "signal mask of parent changed");
                    break;
                }
                case 4: // default construct
                    if (p) x.prune();
                    g[i].emplace();
                    break;
                case 5: // destroy
                    if (!p) x.prune();
                    MC_TRACE(x, "destroy g", i, "; ");
                    g[i].reset();
                    check_done(i);
                    drop(i);
                    break;
                case 6:
                    if (!p) x.prune();
                    MC_TRACE(x, "join g", i, "; ");
                    p->join();
                    check_done(i);
                    joined[i] = true;
                    break;
                case 7: {
                    if (!p) x.prune();
                    MC_TRACE(x, "rethrow g", i, "; ");
                    int j = model[i];
                    bool expect = j >= 0 && jobs[j].throws && !jobs[j].rethrown;
                    bool thrown = false;
                    try {
                        p->join_and_rethrow();
                    }
                    catch (Error& e) {
                        thrown = true;
                        MC_CHECK(x, j >= 0 && e.id == 100 + j, "wrong exception");
                    }
                    check_done(i);
                    joined[i] = true;
                    MC_CHECK(x, thrown == expect, "rethrown: ", thrown, ", expected: ", expect);
                    if (thrown) jobs[j].rethrown = true;
                    break;
                }
                case 8: case 9: { // move construct / assign
                    if (!p) x.prune();
                    auto& q = g[1 - i];
                    if (bool(q) != (op == 9)) x.prune();
                    MC_TRACE(x, "g", 1 - i, " = move(g", i, "); ");
                    if (op == 8) {
                        q.emplace(std::move(*p));
                    }
                    else {
                        auto& r = (*q = std::move(*p));
                        MC_CHECK(x, &r == &*q);
                        check_done(1 - i);
                    }
                    model[1 - i] = model[i];
                    joined[1 - i] = joined[i];
                    drop(i);
                    break;
                }
            }
            if (num == 2) x.shard_point();
            x.step();
        }
        for (int i = 0; i < 2; ++i) {
            if (!g[i]) continue;
            g[i].reset();
            check_done(i);
        }
        for (int j = 0; j < njobs; ++j) {
            const Job& job = jobs[j];
            if (job.steps == 0) continue;
            MC_CHECK(x, job.steps == 2);
        }
        x.state(mc::mix(njobs, sched::switches()));
        x.outcome(mc::mix(sched::switches(), 1));
        sched::create_hook = nullptr;
    }
    for (int j = 0; j < njobs; ++j) {
        const Job& job = jobs[j];
        if (job.steps != 0 && !job.name.empty() && job.blocked) MC_CHECK(x, job.name == "managed-thread-", "name: ", job.name);
    }
}
mc::Scenario s1("histories", 64, run);

// Nested: managed thread that itself manages a thread
mc::Scenario s2("nested", 1, [](mc::Ctx& x) {
    bool t1 = x.choose(2), t2 = x.choose(2), rethrow_inner = x.choose(2), rethrow_outer = x.choose(2), cfg = x.choose(2);
    sched::Session ses(x);
    int a = 0, b = 0;
    bool caught = false;
    int id = 0;
    {
        core::ThreadGuard::Config c;
        c.block_signals = cfg;
        core::ThreadGuard g([&] {
            core::ThreadGuard h([&] { sched::point(); b = 1; if (t2) throw Error { 2 }; });
            a = 1;
            if (rethrow_inner) h.join_and_rethrow(); else h.join();
            if (b != 1) x.fail("inner thread not joined");
            if (t1) throw Error { 1 };
        }, std::move(c));
        try {
            if (rethrow_outer) g.join_and_rethrow(); else g.join();
        }
        catch (Error& e) { caught = true; id = e.id; }
        MC_CHECK(x, a == 1 && b == 1);
    }
    int expect = t2 && rethrow_inner ? 2 : t1 ? 1 : 0;
    if (!rethrow_outer) expect = 0;
    MC_CHECK(x, caught == (expect != 0) && id == expect);
    x.outcome(mc::mix(sched::switches(), id));
});
}
