// C26: compositions of loggers against a model, and concurrent logging under all schedules.
#include "sched.hpp"
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/thread_guard.hpp>
#include <archon/core/file.hpp>
#include <archon/log/logger.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/log/timestamp_logger.hpp>
#include <archon/log/prefix_logger.hpp>
#include <archon/log/limit_logger.hpp>
#include <archon/log/channel_logger.hpp>
#include <archon/log/duplicating_logger.hpp>
#include <archon/log/jail_logger.hpp>
#include <archon/log/encoding_logger.hpp>

using namespace archon;
using log::LogLevel;

namespace {

const LogLevel levels[] = { LogLevel::fatal, LogLevel::error, LogLevel::warn, LogLevel::info, LogLevel::detail, LogLevel::debug, LogLevel::trace };

template<class C> std::basic_string<C> S(std::string_view s) { return std::basic_string<C>(s.begin(), s.end()); }
std::string N(std::string_view s) { return std::string(s); }
std::string N(std::wstring_view s) { return std::string(s.begin(), s.end()); }

template<class C> struct Capture : log::BasicRootLogger<C> {
    std::string out;
    Capture() : log::BasicRootLogger<C>(std::locale::classic()) {}
    void root_log(std::basic_string_view<C> m) override { out += N(m); }
};

std::string level_prefix(LogLevel l)
{
    switch (l) {
        case LogLevel::warn: return "WARNING: ";
        case LogLevel::error: return "ERROR: ";
        case LogLevel::fatal: return "FATAL: ";
        default: return "";
    }
}

// Model
using Sink = std::function<void(LogLevel, const std::string& chan_prefix, const std::string& msg_prefix, const std::string& msg)>;
struct Chan { std::string prefix; Sink sink; std::function<int()> limit; int nested = 0; };
struct Model {
    std::string prefix, selected;
    std::map<std::string, Chan> chans;
};

Sink root_sink(std::string& out)
{
    return [&out](LogLevel l, const std::string& cp, const std::string& mp, const std::string& msg) {
        std::size_t i = 0;
        for (;;) {
            std::size_t j = msg.find('\n', i);
            out += cp + mp + level_prefix(l) + msg.substr(i, j == msg.npos ? j : j - i) + "\n";
            if (j == msg.npos) break;
            i = j + 1;
        }
    };
}

template<class C> struct World {
    using Log = log::BasicLogger<C>;
    Capture<C> r1, r2;
    log::BasicNullLogger<C> null;
    std::string e1, e2; // expected
    Model mr1, mr2, mnull;
    std::vector<std::shared_ptr<void>> keep;
    std::vector<std::pair<std::shared_ptr<int>, log::BasicLimitLogger<C>*>> variable;
    World()
    {
        auto all = [] { return int(LogLevel::all); };
        mr1.chans[""] = { "", root_sink(e1), all };
        mr2.chans[""] = { "", root_sink(e2), all };
        mnull.chans[""] = { "", [](auto&&...) {}, [] { return int(LogLevel::off); } };
    }
    template<class L, class... A> L& make(A&&... a)
    {
        auto p = std::make_shared<L>(std::forward<A>(a)...);
        keep.push_back(p);
        return *p;
    }
};

std::string lim(std::function<int()> f);

template<class C> struct Node { log::BasicLogger<C>* log; Model m; };

template<class C> bool extend(mc::Ctx& x, World<C>& w, std::vector<Node<C>>& chain)
{
    Node<C> b = chain.back();
    Node<C> n = b;
    int op = x.choose(13);
    auto pick_target = [&]() -> Node<C> {
        int k = x.choose(4);
        switch (k) {
            case 0: MC_TRACE(x, "->R2"); return { &w.r2, w.mr2 };
            case 1: {
                MC_TRACE(x, "->prefixed R2");
                Node<C> t { &w.template make<log::BasicPrefixLogger<C>>(w.r2, S<C>("R2:")), w.mr2 };
                t.m.prefix = "R2:";
                return t;
            }
            case 2: MC_TRACE(x, "->itself"); return b;
            default: MC_TRACE(x, "->null"); return { &w.null, w.mnull };
        }
    };
    auto pick_channel = [&](const Model& m) -> std::string {
        auto i = m.chans.begin();
        std::advance(i, x.choose(int(m.chans.size())));
        return i->first;
    };
    auto limit_chan = [&](Chan& c, std::shared_ptr<int> v) {
        Sink s = c.sink;
        c.sink = [s, v](LogLevel l, const std::string& a, const std::string& b, const std::string& m) { if (int(l) <= *v) s(l, a, b, m); };
        c.limit = [v] { return *v; };
        ++c.nested;
    };
    switch (op) {
        case 0: { // Prefix
            bool cstr = x.choose(2);
            MC_TRACE(x, "prefix; ");
            std::string p = mc::str("P", chain.size(), ":");
            if (cstr) n.log = &w.template make<log::BasicPrefixLogger<C>>(*b.log, p.c_str());
            else n.log = &w.template make<log::BasicPrefixLogger<C>>(*b.log, std::basic_string_view<C>(S<C>(p)));
            n.m.prefix += p;
            break;
        }
        case 1: { // Prefix with channel selection
            std::string c = pick_channel(b.m);
            MC_TRACE(x, "prefix on channel '", c, "'; ");
            std::string p = mc::str("P", chain.size(), ":");
            n.log = &w.template make<log::BasicPrefixLogger<C>>(*b.log, S<C>(p), c);
            n.m.prefix += p;
            n.m.selected = c;
            break;
        }
        case 2: { // Select channel
            std::string c = pick_channel(b.m);
            MC_TRACE(x, "select channel '", c, "'; ");
            n.log = &w.template make<log::BasicLogger<C>>(*b.log, c);
            n.m.selected = c;
            break;
        }
        case 3: { // Equivalent logger
            MC_TRACE(x, "copy; ");
            n.log = &w.template make<log::BasicLogger<C>>(static_cast<log::BasicLogger<C>&>(*b.log));
            break;
        }
        case 4: case 5: { // Fixed limit, on all channels or by pattern
            LogLevel l = x.pick({ LogLevel::off, LogLevel::warn, LogLevel::detail, LogLevel::all });
            std::string pat = op == 4 ? "*" : x.choose(2) ? "x*" : "";
            MC_TRACE(x, "limit ", int(l), " on '", pat, "'; ");
            auto match = [&](const std::string& s) { return pat == "*" || (pat == "x*" ? s.substr(0, 1) == "x" : s == ""); };
            bool any = false;
            for (auto& e : n.m.chans) any |= match(e.first);
            try {
                if (op == 4) n.log = &w.template make<log::BasicLimitLogger<C>>(*b.log, l);
                else n.log = &w.template make<log::BasicLimitLogger<C>>(*b.log, l, pat);
            }
            catch (std::invalid_argument&) {
                MC_CHECK(x, !any, "channel pattern rejected");
                return false;
            }
            MC_CHECK(x, any, "channel pattern without match accepted");
            for (auto& e : n.m.chans) if (match(e.first)) limit_chan(e.second, std::make_shared<int>(int(l)));
            break;
        }
        case 6: { // Variable limit
            MC_TRACE(x, "variable limit; ");
            auto v = std::make_shared<int>(int(LogLevel::info));
            auto& l = w.template make<log::BasicLimitLogger<C>>(*b.log);
            n.log = &l;
            w.variable.push_back({ v, &l });
            for (auto& e : n.m.chans) limit_chan(e.second, v);
            break;
        }
        case 7: { // New channel
            std::string name = x.choose(2) ? "x1" : "a";
            MC_TRACE(x, "new channel '", name, "'");
            Node<C> t = pick_target();
            MC_TRACE(x, "; ");
            n.log = &w.template make<log::BasicChannelLogger<C>>(*b.log, name, *t.log);
            for (auto& e : n.m.chans) e.second.prefix += b.m.prefix;
            n.m.prefix = "";
            Chan c = t.m.chans[t.m.selected];
            c.prefix += t.m.prefix;
            n.m.chans[name] = c;
            break;
        }
        case 8: { // Two new channels, one replacing the default one
            Node<C> t = pick_target();
            std::string tc = pick_channel(t.m);
            MC_TRACE(x, "replace default channel with '", tc, "' of target, and add 'x2'; ");
            using Rule = typename log::BasicChannelLogger<C>::Rule;
            std::string s1 = "", s2 = "x2"; // Names must be copied
            std::vector<Rule> rules = { Rule(s1, *t.log, tc), Rule(s2, *b.log) };
            n.log = &w.template make<log::BasicChannelLogger<C>>(*b.log, rules);
            s2[0] = '?';
            for (auto& e : n.m.chans) e.second.prefix += b.m.prefix;
            n.m.prefix = "";
            Chan c = t.m.chans[tc];
            c.prefix += t.m.prefix;
            n.m.chans[""] = c;
            Chan d = b.m.chans[b.m.selected];
            d.prefix += b.m.prefix;
            n.m.chans["x2"] = d;
            break;
        }
        case 9: case 10: { // Duplicate
            std::string c = op == 9 ? b.m.selected : pick_channel(b.m);
            MC_TRACE(x, "duplicate channel '", c, "'");
            Node<C> t = pick_target();
            MC_TRACE(x, "; ");
            if (op == 9) n.log = &w.template make<log::BasicDuplicatingLogger<C>>(*b.log, *t.log);
            else n.log = &w.template make<log::BasicDuplicatingLogger<C>>(*b.log, c, *t.log);
            for (auto& e : n.m.chans) e.second.prefix += b.m.prefix;
            n.m.prefix = "";
            Chan& o = n.m.chans[c];
            Chan t2 = t.m.chans[t.m.selected];
            t2.prefix += t.m.prefix;
            Chan o2 = o;
            o.prefix = "";
            o.sink = [o2, t2](LogLevel l, const std::string& cp, const std::string& mp, const std::string& m) {
                o2.sink(l, o2.prefix + cp, mp, m);
                t2.sink(l, t2.prefix + cp, mp, m);
            };
            o.limit = [o2, t2] { return std::max(o2.limit(), t2.limit()); };
            o.nested = std::max(o2.nested, t2.nested);
            break;
        }
        case 11: { // Jail
            bool sel = x.choose(2);
            std::string c = sel ? pick_channel(b.m) : b.m.selected;
            MC_TRACE(x, "jail '", c, "'; ");
            if (sel) n.log = &w.template make<log::BasicJailLogger<C>>(*b.log, c);
            else n.log = &w.template make<log::BasicJailLogger<C>>(*b.log);
            Chan d = b.m.chans[c];
            d.prefix += b.m.prefix;
            n.m = {};
            n.m.chans[""] = d;
            break;
        }
        case 12: { // Time stamp (constant)
            MC_TRACE(x, "timestamp; ");
            typename log::BasicTimestampLogger<C>::Config cfg;
            cfg.format = "T: ";
            cfg.utc_time = true;
            n.log = &w.template make<log::BasicTimestampLogger<C>>(*b.log, cfg);
            n.m.prefix += "T: ";
            break;
        }
    }
    chain.push_back(n);
    return true;
}

template<class C> void log_all(mc::Ctx& x, World<C>& w, Node<C>& n, const std::string& what)
{
    for (auto& e : n.m.chans) {
        log::BasicLogger<C> l(*n.log, e.first);
        MC_CHECK(x, l.get_channel().get_name() == e.first);
        const Chan& c = e.second;
        for (LogLevel lev : levels) {
            for (int k = 0; k < 3; ++k) {
                if (k > 0 && lev != LogLevel::error) continue;
                std::size_t n1 = w.e1.size(), n2 = w.e2.size();
                static const char* const fmt[] = { "m%s", "a\nb%s\nc", "%%s\n" };
                const std::string exp[] = { "m7", "a\nb7\nc", "%s\n" };
                if (k == 0) l.log(lev, fmt[k], 7);
                else if (k == 1) l.log(lev, std::basic_string_view<C>(S<C>(fmt[k])), 7);
                else l.log(lev, std::basic_string_view<C>(S<C>(fmt[k])));
                c.sink(lev, c.prefix, n.m.prefix, exp[k]);
                x.eval();
                bool ok = w.r1.out == w.e1 && w.r2.out == w.e2;
                MC_CHECK(x, ok, what, "channel '", e.first, "' level ", int(lev), ": got ", mc::esc(w.r1.out.substr(std::min(n1, w.r1.out.size()))), " and ", mc::esc(w.r2.out.substr(std::min(n2, w.r2.out.size()))),
                         ", expected ", mc::esc(w.e1.substr(n1)), " and ", mc::esc(w.e2.substr(n2)));
                bool emitted = w.e1.size() != n1 || w.e2.size() != n2;
                if (emitted) MC_CHECK(x, l.will_log(lev), "will_log() is false");
                if (c.nested <= 1) MC_CHECK(x, l.will_log(lev) == (int(lev) <= c.limit()), what, "channel '", e.first, "' level ", int(lev), ": will_log() is ", l.will_log(lev), ", limit is ", c.limit());
                MC_CHECK(x, l.will_log(lev) == (lev <= l.get_log_level_limit()));
            }
        }
    }
    // Through logger itself
    {
        const Chan& c = n.m.chans[n.m.selected];
        for (LogLevel lev : { LogLevel::fatal, LogLevel::error, LogLevel::warn, LogLevel::info, LogLevel::detail, LogLevel::debug, LogLevel::trace }) {
            auto& l = *n.log;
            switch (lev) {
                case LogLevel::fatal: l.fatal("q"); break;
                case LogLevel::error: l.error(std::basic_string_view<C>(S<C>("q"))); break;
                case LogLevel::warn: l.warn("q"); break;
                case LogLevel::info: l.info("q"); break;
                case LogLevel::detail: l.detail("q"); break;
                case LogLevel::debug: l.debug("q"); break;
                default: l.trace(std::basic_string_view<C>(S<C>("q"))); break;
            }
            c.sink(lev, c.prefix, n.m.prefix, "q");
        }
        MC_CHECK(x, w.r1.out == w.e1 && w.r2.out == w.e2, what, "selected channel '", n.m.selected, "': got ", mc::esc(w.r1.out), " and ", mc::esc(w.r2.out), ", expected ", mc::esc(w.e1), " and ", mc::esc(w.e2));
    }
    w.r1.out.clear(); w.r2.out.clear(); w.e1.clear(); w.e2.clear();
}

template<class C> void compositions(mc::Ctx& x, int max_depth)
{
    World<C> w;
    std::vector<Node<C>> chain = { { &w.r1, w.mr1 } };
    int depth = x.choose(max_depth + 1);
    for (int i = 0; i < depth; ++i) {
        bool more = extend(x, w, chain);
        if (i == 0) x.shard_point();
        if (!more) break;
    }
    x.step(depth);
    for (auto& n : chain) { // Constructing other loggers must not affect this one
        if (&n != &chain.back() && depth == max_depth && max_depth > 2) continue;
        log_all(x, w, n, "");
    }
    for (auto& v : w.variable) {
        for (LogLevel l : { LogLevel::off, LogLevel::error, LogLevel::trace, LogLevel::all, LogLevel::info }) {
            v.second->set_log_level_limit(l);
            *v.first = int(l);
            log_all(x, w, chain.back(), mc::str("after setting of limit to ", int(l), ": "));
        }
    }
}

mc::Scenario s1("compositions", 64, [](mc::Ctx& x) { compositions<char>(x, x.thorough ? 4 : 3); });
mc::Scenario s2("compositions_wide", 32, [](mc::Ctx& x) { compositions<wchar_t>(x, x.thorough ? 3 : 2); });

// Wide compositions on top of narrow ones
mc::Scenario s3("encoding", 64, [](mc::Ctx& x) {
    World<char> w;
    World<wchar_t> v;
    std::vector<Node<char>> chain = { { &w.r1, w.mr1 } };
    int depth = x.choose(3);
    for (int i = 0; i < depth; ++i) if (!extend(x, w, chain)) x.prune();
    x.shard_point();
    Node<char>& b = chain.back();
    MC_TRACE(x, "encode; ");
    auto check_out = [&](auto& got_v, const char* what) {};
    // Wide end of bridge: one channel
    log::WideEncodingLogger e(*b.log);
    Node<wchar_t> n { &e, {} };
    Chan bc = b.m.chans[b.m.selected];
    std::string bp = b.m.prefix;
    Chan c = bc;
    c.prefix = "";
    c.sink = [bc, bp](LogLevel l, const std::string& cp, const std::string& mp, const std::string& m) { bc.sink(l, bc.prefix + cp, bp + mp, m); };
    n.m.selected = b.m.selected;
    n.m.chans[n.m.selected] = c;
    std::vector<Node<wchar_t>> chain2 = { n };
    int depth2 = x.choose(x.thorough ? 3 : 2);
    for (int i = 0; i < depth2; ++i) if (!extend(x, v, chain2)) x.prune();
    // Output goes to roots of both worlds
    Node<wchar_t>& f = chain2.back();
    for (auto& ch : f.m.chans) {
        log::WideLogger l(*f.log, ch.first);
        for (LogLevel lev : levels) {
            l.log(lev, "m%s\nz", 7);
            ch.second.sink(lev, ch.second.prefix, f.m.prefix, "m7\nz");
            x.eval();
            MC_CHECK(x, w.r1.out == w.e1 && w.r2.out == w.e2 && v.r1.out == v.e1 && v.r2.out == v.e2, "channel '", ch.first, "' level ", int(lev), ": got ", mc::esc(w.r1.out), ", ", mc::esc(w.r2.out), " and ", mc::esc(v.r1.out), ", ",
                     mc::esc(v.r2.out), ", expected ", mc::esc(w.e1), ", ", mc::esc(w.e2), " and ", mc::esc(v.e1), ", ", mc::esc(v.e2));
        }
    }
    x.step(depth + depth2);
});

// File loggers: content of file, with and without colors
std::string tmp(const std::string& n) { const char* p = std::getenv("MC_TMP"); return std::string(p ? p : ".") + "/" + n; }
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }

template<class L, class C> void file_logger(mc::Ctx& x, bool timestamp)
{
    using Base = log::FileLoggerBase;
    int color = x.choose(3);
    bool existing = x.choose(2);
    int n = x.choose(4);
    std::string path = tmp(mc::str("log-", ::getpid()));
    std::filesystem::remove(path);
    std::string exp;
    if (existing) { std::ofstream(path) << "old\n"; exp = "old\n"; }
    {
        typename L::Config cfg;
        cfg.colorize = color == 0 ? Base::Colorize::no : color == 1 ? Base::Colorize::yes : Base::Colorize::detect;
        if constexpr (requires { cfg.utc_time; }) { cfg.format = "T: "; }
        L l(core::make_fs_path_generic(path, std::locale::classic()), std::locale::classic(), cfg);
        for (int i = 0; i < n; ++i) {
            LogLevel lev = i == 0 ? levels[x.choose(7)] : x.pick({ LogLevel::fatal, LogLevel::warn, LogLevel::info });
            bool two = x.choose(2);
            std::string big(i == 2 ? 3000 : 1, 'x'); // Longer than any seed memory
            l.log(lev, two ? "a\n%s" : "a%s", S<C>(big));
            std::string pre = timestamp ? "T: " : "", lp = level_prefix(lev);
            if (color == 1) {
                if (lev == LogLevel::warn) lp = "\033[33m" + lp + "\033[39m";
                else if (!lp.empty()) lp = "\033[1m\033[31m" + lp + "\033[39m\033[22m";
            }
            exp += two ? pre + lp + "a\n" + pre + lp + big + "\n" : pre + lp + "a" + big + "\n";
            std::string got = slurp(path);
            if (color == 1) { // Only the visible text is specified
                auto strip = [](std::string s) { std::string r; for (std::size_t i = 0; i < s.size(); ++i) { if (s[i] == 27) { while (i < s.size() && s[i] != 'm') ++i; } else r += s[i]; } return r; };
                got = strip(got);
                MC_CHECK(x, got == strip(exp), "got ", mc::esc(got), ", expected ", mc::esc(strip(exp)));
            }
            else MC_CHECK(x, got == exp, "got ", mc::esc(got), ", expected ", mc::esc(exp));
            x.step();
        }
    }
    std::filesystem::remove(path);
}
mc::Scenario s4("files", 8, [](mc::Ctx& x) {
    switch (x.choose(4)) {
        case 0: file_logger<log::FileLogger, char>(x, false); break;
        case 1: file_logger<log::WideFileLogger, wchar_t>(x, false); break;
        case 2: file_logger<log::BasicTimestampFileLogger<char>, char>(x, true); break;
        case 3: file_logger<log::BasicTimestampFileLogger<wchar_t>, wchar_t>(x, true); break;
    }
});

// Concurrent logging
template<class C> struct SchedCapture : log::BasicRootLogger<C> {
    std::string out;
    bool inside = false;
    mc::Ctx& x;
    explicit SchedCapture(mc::Ctx& x_) : log::BasicRootLogger<C>(std::locale::classic()), x(x_) {}
    void root_log(std::basic_string_view<C> m) override
    {
        { sched::Ignore ig; if (inside) x.fail("overlapping output of messages"); inside = true; out += N(m.substr(0, m.size() / 2)); }
        sched::point();
        { sched::Ignore ig; out += N(m.substr(m.size() / 2)); inside = false; }
    }
};

std::vector<std::string> lines_of(const std::string& s)
{
    std::vector<std::string> r;
    std::istringstream in(s);
    for (std::string l; std::getline(in, l);) r.push_back(l);
    return r;
}

template<class C> void concurrent(mc::Ctx& x, int kind, int nthr, bool set_limit)
{
    MC_TRACE(x, "kind ", kind, ", ", nthr, " threads", set_limit ? ", change of limit" : "", "; ");
    std::string path = tmp(mc::str("clog-", ::getpid()));
    std::string out;
    {
        std::optional<SchedCapture<C>> cap;
        std::optional<SchedCapture<char>> cap_n;
        std::optional<log::BasicEncodingLogger<C>> enc;
        std::optional<log::BasicFileLogger<C>> file;
        log::BasicLogger<C>* root;
        if (kind == 0) { cap.emplace(x); root = &*cap; }
        else if (kind == 1) { cap_n.emplace(x); enc.emplace(*cap_n); root = &*enc; }
        else { std::filesystem::remove(path); file.emplace(core::make_fs_path_generic(path, std::locale::classic()), std::locale::classic()); root = &*file; }
        log::BasicLimitLogger<C> lim(*root);
        log::BasicPrefixLogger<C> shared(lim, "S:");
        sched::Session ses(x);
        {
            std::unique_ptr<core::ThreadGuard[]> t = std::make_unique<core::ThreadGuard[]>(nthr);
            for (int i = 0; i < nthr; ++i) {
                t[i] = core::ThreadGuard([&, i] {
                    log::BasicPrefixLogger<C> p(shared, i == 0 ? "a:" : i == 1 ? "b:" : "c:");
                    p.info("m%s\nn", 1);
                    if (i != 2) shared.warn("w%s%s", i, 2);
                });
            }
            if (set_limit) lim.set_log_level_limit(LogLevel::warn);
            for (int i = 0; i < nthr; ++i) t[i].join_and_rethrow();
        }
        out = cap ? cap->out : cap_n ? cap_n->out : slurp(path);
        x.step(sched::switches());
    }
    std::vector<std::string> l = lines_of(out);
    std::vector<int> pos(nthr, 0);
    for (std::size_t i = 0; i < l.size(); ++i) {
        int t = -1, what = -1;
        for (int k = 0; k < nthr; ++k) {
            std::string p = mc::str("S:", char('a' + k), ":");
            if (l[i] == p + "m1") {
                MC_CHECK(x, i + 1 < l.size() && l[i + 1] == p + "n", "message split: ", mc::esc(out));
                ++i;
                t = k;
                what = 0;
                break;
            }
            if (l[i] == mc::str("S:WARNING: w", k, "2")) { t = k; what = 1; }
        }
        MC_CHECK(x, t >= 0, "garbled output: ", mc::esc(out));
        MC_CHECK(x, what == 0 ? pos[t] == 0 : pos[t] == (what ? pos[t] : 0), "order");
        MC_CHECK(x, what == 1 || pos[t] == 0, "order of messages of thread ", t, ": ", mc::esc(out));
        pos[t] |= 1 << what;
    }
    for (int k = 0; k < nthr; ++k) {
        if (k != 2) MC_CHECK(x, pos[k] & 2, "warning of thread ", k, " is missing: ", mc::esc(out));
        if (!set_limit) MC_CHECK(x, pos[k] & 1, "message of thread ", k, " is missing: ", mc::esc(out));
    }
    x.outcome(mc::hash_str(out));
}

mc::Scenario s5("concurrent", 64, [](mc::Ctx& x) {
    bool wide = x.choose(2);
    int kind = x.choose(3);
    int nthr = 2 + x.choose(2);
    bool set_limit = x.choose(2);
    if (nthr == 3 && kind == 2 && !x.thorough) x.prune();
    x.shard_point();
    if (wide) concurrent<wchar_t>(x, kind, nthr, set_limit);
    else concurrent<char>(x, kind, nthr, set_limit);
});

// Console and null loggers are created when first used, possibly by several threads
mc::Scenario s6("shared_loggers", 1, [](mc::Ctx& x) {
    log::Logger::get_null(); // Initialized once per process, so not a part of the explored behavior
    sched::Session ses(x);
    log::Logger* p[3] = {};
    {
        core::ThreadGuard a([&] { p[0] = &log::Logger::get_null(); p[0]->info("x"); });
        core::ThreadGuard b([&] { p[1] = &log::Logger::or_null(nullptr); p[1]->info("y"); });
        p[2] = &log::Logger::get_null();
    }
    MC_CHECK(x, p[0] == p[1] && p[1] == p[2]);
    MC_CHECK(x, !p[0]->will_log(LogLevel::fatal) && p[0]->get_log_level_limit() == LogLevel::off);
    MC_CHECK(x, &log::Logger::or_null(p[0]) == p[0]);
});
}
