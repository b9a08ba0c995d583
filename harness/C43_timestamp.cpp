// C43: timestamp unwrapping against the true times
#include "ints.hpp"
#include <chrono>
#include <vector>
#include <optional>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/display/noinst/timestamp_unwrapper.hpp>

using namespace archon;
using ms = std::chrono::milliseconds;

// true times in ms since an origin; secondary clock = true time + error, where the error relative to the first event
// is less than half the wrapping period
template<class T, int N> void run(mc::Ctx& x, I start, const std::vector<I>& steps, const std::vector<I>& errs, int n, bool micros)
{
    using U = display::impl::TimestampUnwrapper<T, N>;
    using tp = typename U::time_point_type;
    const I M = I(1) << N;
    U u;
    I t = start, sec = 0, last_sec = 0;
    std::optional<typename U::Session> session;
    I first = t % M;
    std::string hist;
    I origin_ms = 1000000; // of secondary clock
    for (int i = 0; i < n; ++i) {
        if (i > 0) {
            t += steps[x.choose(int(steps.size()))];
            I err = errs[x.choose(int(errs.size()))];
            sec = (t - start) + err;
            if (sec < last_sec || sec < 0) { x.prune(); return; } // secondary clock is monotonic
        }
        last_sec = sec;
        // finer part of the secondary clock is rounded away
        int frac = micros && i > 0 ? x.pick({0, 400, -400}) : 0;
        tp now{std::chrono::duration_cast<typename tp::duration>(ms((long long)(origin_ms + sec))) + std::chrono::duration_cast<typename tp::duration>(std::chrono::microseconds(frac))};
        if (now < tp{ms((long long)origin_ms)}) { x.prune(); return; }
        bool again = i > 0 && x.choose(2);
        if (again) session->reset_now(now); else { session.reset(); session.emplace(u, now); }
        x.eval();
        auto r = session->unwrap_next_timestamp(T((unsigned long long)(t % M)));
        I expect = t - start + first;
        if (x.tracing) hist += " true " + istr(t) + " secondary " + istr(sec);
        MC_CHECK(x, I(r.count()) == expect, "width ", N, ": timestamp ", istr(t % M), " unwrapped to ", (long long)r.count(), " instead of ", istr(expect), " (first ", istr(first), ", elapsed ", istr(t - start), ", other clock ", istr(sec), ")");
        x.state(mc::mix(mc::mix(N, std::uint64_t(t)), mc::mix(std::uint64_t(sec), i)));
    }
}

template<class T, int N> void small(mc::Ctx& x, int n)
{
    const I M = I(1) << N;
    I start = x.choose(int(2 * M)); x.shard_point();
    std::vector<I> steps, errs;
    for (I i = 0; i <= 2 * M + 1; ++i) steps.push_back(i);
    for (I e = -M / 2 + (M > 1 ? 0 : 0); e < M / 2 || e == 0; ++e) { if (2 * (e < 0 ? -e : e) < M) errs.push_back(e); }
    run<T, N>(x, start, steps, errs, n, false);
}
static mc::Scenario s1("one-bit", 1, [](mc::Ctx& x) { small<unsigned char, 1>(x, x.thorough ? 6 : 5); });
static mc::Scenario s2("two-bits", 4, [](mc::Ctx& x) { small<unsigned char, 2>(x, x.thorough ? 5 : 4); });
static mc::Scenario s3("three-bits", 8, [](mc::Ctx& x) { small<unsigned char, 3>(x, x.thorough ? 4 : 3); });
static mc::Scenario s4("four-bits", 8, [](mc::Ctx& x) { small<unsigned short, 4>(x, 3); });

template<class T, int N> void large(mc::Ctx& x, int n)
{
    const I M = I(1) << N;
    I start = x.pick(std::vector<I>{0, 1, M / 2 - 1, M / 2, M - 2, M - 1}); x.shard_point();
    std::vector<I> steps{0, 1, M / 2 - 1, M / 2, M - 1, M, M + 1, 2 * M - 1, 3 * M + M / 2};
    std::vector<I> errs{0, 1, -1, M / 4, -M / 4, M / 2 - 1, -(M / 2 - 1)};
    run<T, N>(x, start, steps, errs, n, true);
}
static mc::Scenario s5("eight-bits", 6, [](mc::Ctx& x) { large<unsigned char, 8>(x, x.thorough ? 4 : 3); });
static mc::Scenario s6("full-32-bits", 6, [](mc::Ctx& x) { large<std::uint_fast32_t, 32>(x, x.thorough ? 4 : 3); });
static mc::Scenario s7("31-bits", 6, [](mc::Ctx& x) { large<std::uint32_t, 31>(x, 3); });
static mc::Scenario s8("no-wrapping", 1, [](mc::Ctx& x) {
    // representation as wide as that of the result: value is passed through
    using U = display::impl::TimestampUnwrapper<std::uint64_t, 63>;
    U u;
    const std::uint64_t m = std::uint64_t(-1) >> 1;
    for (int i = 0; i < 3; ++i) {
        std::uint64_t v = x.pick(std::vector<std::uint64_t>{0, 1, 77, m / 2, m - 1, m});
        U::Session s(u, U::time_point_type{ms(x.pick({5, 5000}) * (i + 1))});
        x.eval();
        MC_CHECK(x, std::uint64_t(s.unwrap_next_timestamp(v).count()) == v, "timestamp ", v, " changed");
    }
});
