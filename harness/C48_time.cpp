// C48: time breakdown, conversion of time points, timestamp formatting against strftime
#include <mc.hpp>
#include <chrono>
#include <cstdlib>
#include <ctime>
#include <locale>
#include <stdexcept>
#include <vector>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/time.hpp>
#include <archon/core/timestamp_formatter.hpp>
using namespace archon;
static std::uint64_t oc(const char* s) { return mc::hash_str(s); }
using P = core::TimestampFormatterBase::Precision;

static const std::vector<std::time_t> times = { 0, -1, 59, 951782399, 951782400, 1000000000, 1709164800 + 86399, -2208988800, 4102444800, -62135596800, 253402300799 };
static const std::vector<long> nanos = { 0, 1, 999, 1000, 999999, 1000000, 123456789, 999999999, 5000000, 90000 };
static void set_tz(const char* tz) { ::setenv("TZ", tz, 1); ::tzset(); }
static const char* zones[] = { "UTC0", "XYZ-5:30", "ABC8DEF,M3.2.0,M11.1.0" };

static std::string ref_format(const std::tm& tm, const std::string& f, P prec, long ns)
{
    auto put = [&](const std::string& g) { if (g.empty()) return std::string(); std::string b(4096, 0); b.resize(std::strftime(b.data(), b.size(), g.c_str(), &tm)); return b; };
    std::string out;
    for (std::size_t i = 0; i < f.size();) {
        if (f[i] != '%') { out += f[i++]; continue; }
        std::size_t n = (f[i + 1] == 'E' || f[i + 1] == 'O') ? 3 : 2; std::string d = f.substr(i, n); i += n;
        out += put(d);
        if (prec != P::seconds && (d == "%S" || d == "%T")) {
            char b[16]; if (prec == P::milliseconds) std::snprintf(b, sizeof b, ".%03ld", ns / 1000000); else if (prec == P::microseconds) std::snprintf(b, sizeof b, ".%06ld", ns / 1000); else std::snprintf(b, sizeof b, ".%09ld", ns);
            out += b;
        }
    }
    return out;
}
template<class C> std::string nar(std::basic_string_view<C> s) { std::string r; for (C c : s) r += char(c); return r; }

template<class C> void formats(mc::Ctx& x)
{
    static const std::vector<std::string> tok = { "%F", "%T", "%S", "%%", "T", "S", " ", "%H:%M", "%z", "%Z", "%j", "%OS", "%s" , "a long text of more than twenty characters ", "%Y%m%d" };
    static const std::vector<std::string> tok2 = { "", "%S", "%%", "T", "%T" };
    std::string f;
    int n = x.choose(x.thorough ? 5 : 4);
    for (int i = 0; i < n; ++i) f += i < 2 ? x.pick(tok) : x.pick(tok2);
    P prec = P(x.choose(4));
    x.shard_point();
    core::BasicTimestampFormatter<C> fmt(std::locale::classic());
    typename core::BasicTimestampFormatter<C>::Params params { prec, f };
    for (const char* z : zones) {
        set_tz(z);
        for (std::time_t t : times) for (long ns : nanos) {
            if ((t + ns) % 3 == 1 && !x.thorough && n > 2) continue;
            std::tm lt = {}, gt = {}; ::localtime_r(&t, &lt); ::gmtime_r(&t, &gt);
            core::timespec_type ts { t, ns };
            x.eval();
            std::string want = ref_format(lt, f.empty() ? "%FT%T%z" : f, prec, ns);
            auto got = nar<C>(fmt.format_local(ts, params));
            MC_CHECK(x, got == want, "local timestamp of ", t, "+", ns, "ns in zone ", z, " by ", mc::esc(f), " precision ", int(prec), " is ", mc::esc(got), " expected ", mc::esc(want));
            std::string want_2 = ref_format(gt, f.empty() ? "%FT%TZ" : f, prec, ns);
            got = nar<C>(fmt.format_utc(ts, params));
            MC_CHECK(x, got == want_2, "UTC timestamp of ", t, "+", ns, "ns by ", mc::esc(f), " precision ", int(prec), " is ", mc::esc(got), " expected ", mc::esc(want_2));
            got = nar<C>(fmt.format(lt, ns, params));
            MC_CHECK(x, got == want, "timestamp of broken-down time by ", mc::esc(f), " is ", mc::esc(got), " expected ", mc::esc(want));
        }
    }
    x.state(mc::mix(mc::hash_str(f), int(prec))); x.outcome(oc("format"));
}
static mc::Scenario s_fmt("formats", 8, [](mc::Ctx& x) { if (x.choose(2)) formats<wchar_t>(x); else formats<char>(x); });

static mc::Scenario s_tp("time-points", 1, [](mc::Ctx& x) {
    using clock = std::chrono::system_clock;
    static const std::vector<std::time_t> ts = { 0, 1, -1, -2, 1000000000, -1000000000, 4102444800, -2208988800 };
    std::time_t t = x.pick(ts); long ns = x.pick(nanos);
    auto tp = clock::time_point(std::chrono::duration_cast<clock::duration>(std::chrono::seconds(t) + std::chrono::nanoseconds(ns)));
    auto r = core::time_point_to_timespec(tp); x.eval();
    MC_CHECK(x, r.tv_sec == t && r.tv_nsec == ns, "time point ", t, "s+", ns, "ns becomes ", r.tv_sec, "s+", r.tv_nsec, "ns");
    set_tz("XYZ-5:30");
    std::tm a = core::time_breakdown_utc(t), b = core::time_breakdown_local(t), c = {}, d = {}; ::gmtime_r(&t, &c); ::localtime_r(&t, &d);
    auto eq = [](const std::tm& p, const std::tm& q) { return p.tm_sec == q.tm_sec && p.tm_min == q.tm_min && p.tm_hour == q.tm_hour && p.tm_mday == q.tm_mday && p.tm_mon == q.tm_mon && p.tm_year == q.tm_year && p.tm_wday == q.tm_wday && p.tm_yday == q.tm_yday; };
    MC_CHECK(x, eq(a, c) && eq(b, d), "breakdown of ", t);
    std::tm e = a; MC_CHECK(x, ::timegm(&e) == t, "breakdown of ", t, " does not give the time back");
    core::TimestampFormatter f; core::TimestampFormatterBase::Params p; p.precision = P::nanoseconds;
    std::string s1(f.format_utc(tp, p)), s2(f.format_utc(r, p)), s3(f.format_local(tp, p)), s4(f.format_local(r, p));
    MC_CHECK(x, s1 == s2 && s3 == s4, "time point and timespec differ: ", s1, " ", s2);
    MC_CHECK(x, s1 == ref_format(c, "%FT%TZ", P::nanoseconds, ns), "timestamp is ", s1);
    p.precision = P::seconds; std::string s5(f.format_utc(t, p)), s6(f.format_local(t, p));
    MC_CHECK(x, s5 == ref_format(c, "%FT%TZ", P::seconds, 0) && s6 == ref_format(d, "%FT%T%z", P::seconds, 0), "timestamp is ", s5, " / ", s6);
    x.state(mc::mix(t, ns)); x.outcome(oc("time point"));
});
static mc::Scenario s_err("unrepresentable-times", 1, [](mc::Ctx& x) {
    std::time_t t = x.choose(2) ? std::numeric_limits<std::time_t>::max() : std::numeric_limits<std::time_t>::min();
    core::TimestampFormatter f; bool thrown = false;
    std::string before(f.format_utc(std::time_t(0)));
    int k = x.choose(3);
    try { if (k == 0) f.format_utc(t); else if (k == 1) f.format_local(t); else core::time_breakdown_utc(t); } catch (std::invalid_argument&) { thrown = true; }
    MC_CHECK(x, thrown, "time that cannot be broken down is accepted");
    std::string after(f.format_utc(std::time_t(0))); MC_CHECK(x, after == before && after == "1970-01-01T00:00:00Z", "formatter after failure gives ", after);
    x.outcome(oc("error"));
});
