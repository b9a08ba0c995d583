// Small stateless model checker: exhaustive enumeration of choice sequences on real code.
//
// A scenario is a function of a Ctx. Every source of nondeterminism in the scenario (which
// operation next, which argument, what the environment answers, which thread runs next) is
// a call of Ctx::choose(). The explorer replays the scenario for every sequence of choices
// (depth first), so when a scenario ends without violation, every behavior of the bounded
// space has been executed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace mc {

inline constexpr uint64_t k_seed = 0x9E3779B97F4A7C15ull;

inline uint64_t mix(uint64_t h, uint64_t v) noexcept
{
    h ^= v + k_seed + (h << 6) + (h >> 2);
    h *= 0xFF51AFD7ED558CCDull;
    h ^= h >> 32;
    return h;
}

inline uint64_t hash_bytes(const void* p, std::size_t n, uint64_t h = k_seed) noexcept
{
    auto q = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i)
        h = (h ^ q[i]) * 0x100000001B3ull;
    return mix(h, n);
}
inline uint64_t hash_str(std::string_view s, uint64_t h = k_seed) noexcept { return hash_bytes(s.data(), s.size(), h); }

struct Skip {}; // thrown by Ctx::prune() / shard_point()

class Ctx {
public:
    // Choose one of n alternatives (0..n-1). Alternatives are explored in increasing order.
    int choose(int n);

    // Like choose(), but any alternative other than 0 costs one deviation. When the
    // deviation budget (dev_bound) has been used up, alternative 0 is taken.
    int deviate(int n);

    // Choose from list
    template<class T, std::size_t N> const T& pick(const T (&a)[N]) { return a[choose(int(N))]; }
    template<class V> auto pick(const V& v) -> decltype(v[0]) { return v[choose(int(v.size()))]; }
    // inclusive range
    int range(int lo, int hi) { return lo + choose(hi - lo + 1); }

    // Work distribution: to be called by the scenario itself at a point where the choices
    // made so far identify a work item.
    void shard_point();

    // Abandon the current execution as not being part of the bounded space.
    [[noreturn]] void prune();

    // Record a violation of the property. Does not return.
    [[noreturn]] void fail(const std::string& msg);
    // Violation carrying a specific key. Returns only if the key is listed as a known finding.
    void fail_keyed(const std::string& key, const std::string& msg);

    // Coverage accounting
    void step(std::uint64_t n = 1) noexcept { steps += n; }    // one operation applied to model and implementation
    void state(uint64_t h) noexcept;                           // observed (canonical) state
    void outcome(uint64_t h) noexcept;                         // observed outcome of one case
    void eval(std::uint64_t n = 1) noexcept { evals += n; }    // cases evaluated inside one execution
    void note(const char* key, std::uint64_t n = 1);           // named counter

    // Human readable trace. Active during replay and for the first few executions (samples).
    bool tracing = false;
    std::ostringstream trace;

    bool thorough = false;
    int dev_bound = 0;

    std::uint64_t steps = 0, evals = 0;
    int dev_used = 0;

    bool shard_seen() const noexcept { return m_shard_seen; }
    // internal
    void begin_exec();
    bool advance();
    std::vector<int> choices; // chosen alternatives
    std::vector<int> arity;
    std::size_t pos = 0;
    std::size_t replay_len = 0;
    int shard = 0, num_shards = 1;
    std::uint64_t shard_counter = 0;
    bool m_shard_seen = false;
    std::size_t m_shard_depth = 0;
    bool replaying = false;
};

using ScenarioFunc = std::function<void(Ctx&)>;

// Register scenario. `max_shards` is the useful number of work shards (1 when the scenario
// does not call shard_point()).
struct Scenario {
    Scenario(const char* name, int max_shards, ScenarioFunc func, bool thorough_only = false);
};

// Thread-safe notification that the explorer is alive (long executions)
void heartbeat() noexcept;

// Access to context of running execution (for interposed functions)
Ctx* current() noexcept;

template<class... A> std::string str(const A&... a)
{
    std::ostringstream out;
    ((out << a), ...);
    return out.str();
}

inline std::string esc(std::string_view s)
{
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c);
        else { std::snprintf(buf, sizeof buf, "\\x%02X", c); r += buf; }
    }
    return r + "\"";
}

} // namespace mc

#define MC_CHECK(x, cond, ...)                                          \
    do {                                                                \
        if (__builtin_expect(!(cond), 0))                               \
            (x).fail(mc::str(__FILE__ + mc::basename_off(__FILE__), ":", __LINE__, ": " #cond " :: ", ##__VA_ARGS__)); \
    } while (0)

#define MC_TRACE(x, ...)                                                \
    do {                                                                \
        if (__builtin_expect((x).tracing, 0))                           \
            (x).trace << mc::str(__VA_ARGS__) << "; ";                  \
    } while (0)

namespace mc {
constexpr std::size_t basename_off(const char* p)
{
    std::size_t r = 0;
    for (std::size_t i = 0; p[i]; ++i)
        if (p[i] == '/') r = i + 1;
    return r;
}
} // namespace mc
