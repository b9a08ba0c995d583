// C09: newline codec (core/newline_codec.hpp)
#include "mc.hpp"
#include <vector>
#include <archon/core/newline_codec.hpp>
using namespace archon;
namespace codec = core::newline_codec;

namespace {
std::string ref_enc(const std::string& s) { std::string r; for (char c : s) { if (c == '\n') r += '\r'; r += c; } return r; }
struct Dec { std::string out; std::vector<std::size_t> ends; std::vector<bool> nl; };
Dec ref_dec(const std::string& s)
{
    Dec r;
    r.ends.push_back(0);
    for (std::size_t i = 0; i < s.size(); ) {
        bool pair = s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n';
        r.out += pair ? '\n' : s[i];
        i += pair ? 2 : 1;
        r.ends.push_back(i);
        r.nl.push_back(pair);
    }
    return r;
}
const char al[] = { 'a', '\n', '\r', '\0' };
std::string text(mc::Ctx& x, int max)
{
    int n = x.range(0, max);
    std::string s;
    for (int i = 0; i < n; ++i) { if (i == 3) x.shard_point(); s += x.pick(al); }
    if (n <= 3) x.shard_point();
    return s;
}
mc::Scenario s1("steps", 64, [](mc::Ctx& x) {
    std::string s = text(x, x.thorough ? 8 : 6);
    MC_TRACE(x, mc::esc(s));
    // Single steps with every start offset, every buffer size and offset
    std::size_t n = s.size();
    for (std::size_t i = 0; i <= n; ++i) {
        std::string rest = s.substr(i);
        Dec d = ref_dec(rest);
        std::vector<char> in(s.begin(), s.end());
        for (std::size_t bs = 0; bs <= n + 1; ++bs) for (std::size_t bo = 0; bo <= std::min(bs, std::size_t(2)); ++bo) {
            std::size_t space = bs - bo;
            for (int end = 0; end < 2; ++end) {
                std::vector<char> buf(bs, '#');
                std::size_t off = i, o = bo, clear = 777;
                codec::decode(core::Span<const char>(in.data(), in.size()), off, end, core::Span<char>(buf.data(), buf.size()), o, 1000, clear);
                x.step();
                // expected number of characters
                std::size_t m = std::min(space, d.out.size());
                bool final_cr = !end && !rest.empty() && rest.back() == '\r';
                if (final_cr && m == d.out.size()) --m;
                std::size_t ec = 777;
                for (std::size_t k = 0; k < m; ++k) if (d.nl[k]) ec = 1000 + bo + k + 1;
                if (off != i + d.ends[m] || o != bo + m || clear != ec || std::string(buf.begin() + long(bo), buf.begin() + long(o)) != d.out.substr(0, m))
                    x.fail(mc::str("decode(", mc::esc(s), ", offset ", i, ", end ", end, ", space ", space, "): consumed ", off - i, " produced ", o - bo, " clear ", clear, ", expected ", d.ends[m], " ", m, " ", ec));
                for (std::size_t k = 0; k < bs; ++k) if ((k < bo || k >= o) && buf[k] != '#') x.fail("decode wrote outside of reported range");
            }
            {
                std::vector<char> buf(bs, '#');
                std::size_t off = i, o = bo;
                codec::encode(core::Span<const char>(in.data(), in.size()), off, core::Span<char>(buf.data(), buf.size()), o);
                x.step();
                std::size_t m = 0, sz = 0;
                while (m < rest.size() && sz + (rest[m] == '\n' ? 2 : 1) <= space) { sz += rest[m] == '\n' ? 2 : 1; ++m; }
                if (off != i + m || o != bo + sz || std::string(buf.begin() + long(bo), buf.begin() + long(o)) != ref_enc(rest.substr(0, m)))
                    x.fail(mc::str("encode(", mc::esc(s), ", offset ", i, ", space ", space, "): consumed ", off - i, " produced ", o - bo, ", expected ", m, " ", sz));
                for (std::size_t k = 0; k < bs; ++k) if ((k < bo || k >= o) && buf[k] != '#') x.fail("encode wrote outside of reported range");
            }
        }
        for (std::size_t k = 0; k <= n + 2; ++k) {
            std::size_t off = i;
            bool ok = codec::simul_decode(core::Span<const char>(in.data(), in.size()), off, k);
            bool e = k <= d.out.size();
            x.step();
            if (ok != e || off != (e ? i + d.ends[k] : i))
                x.fail(mc::str("simul_decode(", mc::esc(s), ", offset ", i, ", ", k, "): ", ok, " ", off, ", expected ", e, " ", e ? i + d.ends[k] : i));
        }
    }
    x.state(mc::hash_str(s));
});
mc::Scenario s2("streaming", 64, [](mc::Ctx& x) {
    std::string s = text(x, x.thorough ? 9 : 7);
    MC_TRACE(x, mc::esc(s));
    Dec d = ref_dec(s);
    std::string e = ref_enc(s);
    unsigned splits = s.empty() ? 1 : 1u << (s.size() - 1);
    for (unsigned sp = 0; sp < splits; ++sp) for (std::size_t bs : { 1, 2, 3, 5 }) {
        for (int mode = 0; mode < 3; ++mode) { // decode, encode, encode followed by decode
            if (mode && bs < 2) continue;
            std::string out, pend;
            std::size_t at = 0;
            std::string in = mode == 2 ? e : s;
            if (mode == 2 && sp) continue;
            for (;;) {
                std::size_t next = at;
                while (next < in.size()) { ++next; if (next < in.size() && next - 1 < 31 && (sp >> (next - 1) & 1)) break; }
                pend += in.substr(at, next - at);
                at = next;
                bool end = at == in.size();
                std::size_t off = 0;
                for (int g = 0;; ++g) {
                    if (g > 100) x.fail("no progress");
                    std::vector<char> buf(bs);
                    std::size_t o = 0, clear = 0;
                    std::vector<char> p(pend.begin(), pend.end());
                    if (mode == 1) codec::encode(core::Span<const char>(p.data(), p.size()), off, core::Span<char>(buf.data(), bs), o);
                    else codec::decode(core::Span<const char>(p.data(), p.size()), off, end, core::Span<char>(buf.data(), bs), o, 0, clear);
                    out.append(buf.data(), o);
                    x.step();
                    if (off == p.size() || (mode != 1 && o < bs)) break;
                }
                pend.erase(0, off);
                if (end) break;
            }
            std::string exp = mode == 0 ? d.out : mode == 1 ? e : ref_dec(e).out;
            if (out != exp || !pend.empty()) x.fail(mc::str(mode ? "encode " : "decode ", mc::esc(in), " with division ", sp, " and buffers of ", bs, ": ", mc::esc(out), ", expected ", mc::esc(exp)));
            if (mode == 2 && out != s) x.fail(mc::str("decode(encode(", mc::esc(s), ")) = ", mc::esc(out)));
            x.eval();
        }
    }
    x.outcome(mc::hash_str(d.out));
});
} // namespace
