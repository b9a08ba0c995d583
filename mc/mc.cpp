#include "mc.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>

namespace mc {
namespace {

struct Entry {
    const char* name;
    int max_shards;
    ScenarioFunc func;
    bool thorough_only;
};

std::vector<Entry>& registry()
{
    static std::vector<Entry> r;
    return r;
}

// Open addressing hash set of 64-bit hashes, bounded
struct HashSet {
    std::vector<uint64_t> tab = std::vector<uint64_t>(1 << 12);
    std::size_t n = 0;
    std::size_t cap = std::size_t(1) << 18;
    bool saturated = false;
    void add(uint64_t h)
    {
        if (h == 0)
            h = 1;
        std::size_t mask = tab.size() - 1;
        std::size_t i = (h * 0x9E3779B97F4A7C15ull >> 20) & mask;
        while (tab[i] != 0) {
            if (tab[i] == h)
                return;
            i = (i + 1) & mask;
        }
        if (n >= cap) {
            saturated = true;
            return;
        }
        tab[i] = h;
        ++n;
        if (n * 2 > tab.size()) {
            std::vector<uint64_t> old = std::move(tab);
            tab.assign(old.size() * 2, 0);
            std::size_t mask2 = tab.size() - 1;
            for (uint64_t v : old)
                if (v) {
                    std::size_t j = (v * 0x9E3779B97F4A7C15ull >> 20) & mask2;
                    while (tab[j])
                        j = (j + 1) & mask2;
                    tab[j] = v;
                }
        }
    }
};

// Memory shared with driver: current choices survive a crash of this process
struct Shared {
    std::atomic<uint64_t> beat;
    std::atomic<uint32_t> len;
    int32_t choices[65536];
};

Shared* shm = nullptr;
Shared local_shared;
Ctx* cur = nullptr;
HashSet states, outcomes;
std::map<std::string, uint64_t> notes;
std::set<std::string> known_keys;
std::map<std::string, std::string> known_hits;
std::string out_path;
std::string cur_scenario;
std::vector<std::string> samples;
uint64_t num_execs = 0, num_pruned = 0, nodes = 0, max_depth = 0;

std::string json_str(std::string_view s)
{
    std::string r = "\"";
    char buf[16];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c >= 127) { std::snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
        else r += char(c);
    }
    return r + "\"";
}

void write_hashes(const std::string& path, const HashSet& hs)
{
    FILE* f = std::fopen(path.c_str(), "wb");
    if (!f) return;
    for (uint64_t v : hs.tab)
        if (v) std::fwrite(&v, 8, 1, f);
    std::fclose(f);
}

void write_result(const char* status, const std::string& msg, const std::string& key)
{
    if (out_path.empty()) {
        std::fprintf(stdout, "%s %s\n", status, msg.c_str());
        std::fflush(stdout);
        return;
    }
    std::string o = "{\"status\":" + json_str(status);
    o += ",\"scenario\":" + json_str(cur_scenario);
    o += ",\"msg\":" + json_str(msg);
    o += ",\"key\":" + json_str(key);
    o += ",\"execs\":" + std::to_string(num_execs);
    o += ",\"pruned\":" + std::to_string(num_pruned);
    o += ",\"nodes\":" + std::to_string(nodes);
    o += ",\"max_depth\":" + std::to_string(max_depth);
    if (cur) {
        o += ",\"steps\":" + std::to_string(cur->steps);
        o += ",\"evals\":" + std::to_string(cur->evals);
        o += ",\"dev_bound\":" + std::to_string(cur->dev_bound);
        o += ",\"trace\":" + json_str(cur->trace.str());
        o += ",\"choices\":[";
        for (std::size_t i = 0; i < cur->pos; ++i)
            o += (i ? "," : "") + std::to_string(cur->choices[i]);
        o += "]";
    }
    o += ",\"saturated\":" + std::string(states.saturated || outcomes.saturated ? "true" : "false");
    o += ",\"known\":{";
    bool first = true;
    for (auto& [k, v] : known_hits) {
        o += (first ? "" : ",") + json_str(k) + ":" + json_str(v);
        first = false;
    }
    o += "},\"notes\":{";
    first = true;
    for (auto& [k, v] : notes) {
        o += (first ? "" : ",") + json_str(k) + ":" + std::to_string(v);
        first = false;
    }
    o += "},\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i)
        o += (i ? "," : "") + json_str(samples[i]);
    o += "]}";
    FILE* f = std::fopen(out_path.c_str(), "wb");
    if (f) {
        std::fwrite(o.data(), 1, o.size(), f);
        std::fclose(f);
    }
    write_hashes(out_path + ".states", states);
    write_hashes(out_path + ".outcomes", outcomes);
}

} // namespace

Scenario::Scenario(const char* name, int max_shards, ScenarioFunc func, bool thorough_only)
{
    registry().push_back({ name, max_shards, std::move(func), thorough_only });
}

void heartbeat() noexcept { shm->beat.fetch_add(1, std::memory_order_relaxed); }
Ctx* current() noexcept { return cur; }

int Ctx::choose(int n)
{
    if (n < 1) {
        std::fprintf(stderr, "mc: choose(%d)\n", n);
        std::_Exit(3);
    }
    if (pos < replay_len) {
        int c = choices[pos];
        if (pos < arity.size() && arity[pos] != 0 && arity[pos] != n) {
            // Diverging replay: hard error
            std::fprintf(stderr, "mc: DIVERGENCE at choice %zu: arity %d, was %d\n", pos, n, arity[pos]);
            write_result("divergence", "replay diverged (nondeterminism not controlled)", "");
            std::_Exit(4);
        }
        if (c >= n) {
            std::fprintf(stderr, "mc: DIVERGENCE at choice %zu: choice %d out of %d\n", pos, c, n);
            write_result("divergence", "replay diverged (choice out of range)", "");
            std::_Exit(4);
        }
        if (pos < arity.size())
            arity[pos] = n;
        else
            arity.push_back(n);
        ++pos;
        return c;
    }
    if (n == 1 && !replaying) {
        // still recorded, to keep positions stable
    }
    choices.resize(pos);
    arity.resize(pos);
    choices.push_back(0);
    arity.push_back(n);
    if (pos < 65536) {
        shm->choices[pos] = 0;
        shm->len.store(uint32_t(pos + 1), std::memory_order_relaxed);
    }
    ++pos;
    ++nodes;
    return 0;
}

int Ctx::deviate(int n)
{
    if (dev_used >= dev_bound || n <= 1)
        return 0;
    int c = choose(n);
    if (c != 0)
        ++dev_used;
    return c;
}

void Ctx::shard_point()
{
    if (m_shard_seen)
        return;
    m_shard_seen = true;
    if (replaying || num_shards == 1)
        return;
    // Executions that share the choices made so far belong to the same work item, and are
    // adjacent in depth-first order.
    static std::vector<int> last;
    static bool have_last = false;
    if (!have_last || last.size() != pos || !std::equal(last.begin(), last.end(), choices.begin())) {
        last.assign(choices.begin(), choices.begin() + pos);
        have_last = true;
        ++shard_counter;
    }
    // Scatter work items
    uint64_t k = mix(shard_counter, 12345);
    if (int(k % unsigned(num_shards)) != shard)
        throw Skip();
}

void Ctx::prune() { throw Skip(); }

void Ctx::fail(const std::string& msg)
{
    write_result("violation", msg, "");
    if (replaying)
        std::fprintf(stderr, "VIOLATED: %s\n", msg.c_str());
    std::fflush(nullptr);
    std::_Exit(10);
}

void Ctx::fail_keyed(const std::string& key, const std::string& msg)
{
    if (known_keys.count(key)) {
        known_hits.emplace(key, msg);
        return;
    }
    write_result("violation", "[" + key + "] " + msg, key);
    if (replaying)
        std::fprintf(stderr, "VIOLATED: [%s] %s\n", key.c_str(), msg.c_str());
    std::fflush(nullptr);
    std::_Exit(10);
}

void Ctx::state(uint64_t h) noexcept { states.add(h); }
void Ctx::outcome(uint64_t h) noexcept { outcomes.add(h); }
void Ctx::note(const char* key, std::uint64_t n) { notes[key] += n; }

void Ctx::begin_exec()
{
    pos = 0;
    dev_used = 0;
    m_shard_seen = false;
    trace.str("");
    trace.clear();
    shm->beat.fetch_add(1, std::memory_order_relaxed);
}

// Move to next choice sequence in depth-first order
bool Ctx::advance()
{
    choices.resize(pos);
    arity.resize(pos);
    while (!choices.empty() && choices.back() + 1 >= arity.back()) {
        choices.pop_back();
        arity.pop_back();
    }
    if (choices.empty())
        return false;
    ++choices.back();
    ++nodes;
    // Deeper part of arity is unknown
    replay_len = choices.size();
    if (replay_len <= 65536) {
        shm->choices[replay_len - 1] = choices.back();
        shm->len.store(uint32_t(replay_len), std::memory_order_relaxed);
    }
    return true;
}

} // namespace mc

int main(int argc, char** argv)
{
    using namespace mc;
    std::string scenario, shm_path, choices_arg;
    int shard = 0, num_shards = 1;
    bool thorough = false, list = false, replay = false, trace_all = false;
    double budget = 1e9;
    int dev = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--scenario") scenario = next();
        else if (a == "--shard") { std::string s = next(); std::sscanf(s.c_str(), "%d/%d", &shard, &num_shards); }
        else if (a == "--tier") thorough = (next() == "thorough");
        else if (a == "--list") list = true;
        else if (a == "--choices") { replay = true; choices_arg = next(); }
        else if (a == "--out") out_path = next();
        else if (a == "--shm") shm_path = next();
        else if (a == "--budget") budget = std::atof(next().c_str());
        else if (a == "--known") { std::string k = next(); std::size_t p = 0;
            while (p <= k.size()) { auto q = k.find('\n', p); if (q == std::string::npos) q = k.size(); if (q > p) known_keys.insert(k.substr(p, q - p)); p = q + 1; } }
        else if (a == "--dev") dev = std::atoi(next().c_str());
        else if (a == "--trace") trace_all = true;
        else { std::fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
    }
    if (list) {
        for (auto& e : registry())
            if (thorough || !e.thorough_only)
                std::printf("%s %d\n", e.name, e.max_shards);
        return 0;
    }
    shm = &local_shared;
    if (!shm_path.empty()) {
        int fd = ::open(shm_path.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ::ftruncate(fd, sizeof(Shared)) != 0) { std::perror("shm"); return 3; }
        void* p = ::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) { std::perror("mmap"); return 3; }
        shm = static_cast<Shared*>(p);
        ::close(fd);
    }
    struct rlimit rl = { 0, 0 };
    ::setrlimit(RLIMIT_CORE, &rl);
    cur_scenario = scenario;
    for (auto& e : registry()) {
        if (scenario != e.name)
            continue;
        static Ctx x;
        cur = &x;
        x.thorough = thorough;
        x.shard = shard;
        x.num_shards = num_shards;
        if (dev >= 0) x.dev_bound = dev;
        if (replay) {
            x.replaying = true;
            x.tracing = true;
            std::stringstream ss(choices_arg);
            std::string t;
            while (std::getline(ss, t, ','))
                if (!t.empty()) x.choices.push_back(std::atoi(t.c_str()));
            x.replay_len = x.choices.size();
            x.arity.assign(x.choices.size(), 0);
            for (std::size_t i = 0; i < x.choices.size() && i < 65536; ++i)
                shm->choices[i] = x.choices[i];
            shm->len = uint32_t(std::min<std::size_t>(x.choices.size(), 65536));
            x.begin_exec();
            try {
                e.func(x);
            }
            catch (Skip&) {
            }
            std::fprintf(stderr, "replay: no violation. trace: %s\n", x.trace.str().c_str());
            write_result("ok", "", "");
            return 0;
        }
        auto t0 = std::chrono::steady_clock::now();
        std::string status = "ok";
        for (;;) {
            x.begin_exec();
            x.tracing = (trace_all || samples.size() < 2);
            bool skipped = false;
            try {
                e.func(x);
            }
            catch (Skip&) {
                skipped = true;
            }
            if (!skipped) {
                if (num_shards > 1 && !x.shard_seen()) {
                    // execution ended before its shard point: count it in shard 0 only
                }
                ++num_execs;
                if (x.pos > max_depth) max_depth = x.pos;
                if (samples.size() < 2 && !x.trace.str().empty()) {
                    std::string s = x.trace.str();
                    if (s.size() > 600) s = s.substr(0, 600) + "...";
                    samples.push_back(s);
                }
                else if (trace_all)
                    std::fprintf(stderr, "%s\n", x.trace.str().c_str());
            }
            else
                ++num_pruned;
            if (!x.advance())
                break;
            if ((num_execs & 255) == 0) {
                double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
                if (t > budget) { status = "capped"; break; }
            }
        }
        x.pos = 0;
        write_result(status.c_str(), "", "");
        return 0;
    }
    std::fprintf(stderr, "no such scenario: %s\n", scenario.c_str());
    return 3;
}
