// C14: Base64 against a reference implementation of RFC 4648.
#include "mc.hpp"
#include <array>
#include <locale>
#include <stdexcept>
#include <string>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/base64.hpp>

using namespace archon;
namespace b64 = core::base64;
using uchar = unsigned char;

namespace {

const char* const std_chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const char* const url_chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

std::string ref_encode(std::string_view d, const b64::EncodeConfig& c)
{
    const char* t = c.url_safe_variant ? url_chars : std_chars;
    std::string bits, r;
    for (char ch : d)
        for (int i = 7; i >= 0; --i) bits += char('0' + (uchar(ch) >> i & 1));
    while (bits.size() % 6) bits += '0';
    for (std::size_t i = 0; i < bits.size(); i += 6) r += t[std::stoi(bits.substr(i, 6), nullptr, 2)];
    if (c.use_padding) while (r.size() % 4) r += '=';
    if (c.line_size == 0) return r;
    std::string r2;
    for (std::size_t i = 0; i < r.size(); i += c.line_size) r2 += r.substr(i, c.line_size) + "\n";
    return r2;
}

// `prefix` becomes the bytes of the longest decodable prefix
bool ref_decode(std::string_view s, const b64::DecodeConfig& c, std::string& out, std::string& prefix)
{
    std::string_view t = c.url_safe_variant ? url_chars : std_chars;
    unsigned acc = 0;
    int n = 0, pads = 0;
    bool ok = true;
    std::string r;
    for (char ch : s) {
        if (ch == ' ' || ch == '\t' || ch == '\n') {
            if (c.allow_whitespace) continue;
            ok = false;
            break;
        }
        if (ch == '=') {
            if (c.padding == b64::DecodeConfig::reject) { ok = false; break; }
            ++pads;
            if (n % 4 < 2 || n % 4 + pads > 4) { ok = false; break; }
            if (pads == 1 && (acc & (n % 4 == 2 ? 15 : 3))) { ok = false; break; }
            continue;
        }
        auto i = t.find(ch);
        if (i == t.npos || pads || ch == 0) { ok = false; break; }
        acc = (acc << 6 | unsigned(i)) & 0xFFFFFF;
        if (++n % 4 == 0) { r += char(acc >> 16); r += char(acc >> 8); r += char(acc); acc = 0; }
    }
    prefix = r;
    int k = n % 4;
    if (k == 2) prefix += char(acc >> 4);
    if (k == 3) { prefix += char(acc >> 10); prefix += char(acc >> 2); }
    if (!ok) return false;
    if (k == 1) return false;
    if (k == 0) { if (pads) return false; }
    else {
        if (pads ? pads + k != 4 : c.padding == b64::DecodeConfig::require) return false;
        if (acc & (k == 2 ? 15 : 3)) return false;
    }
    out = prefix;
    return true;
}

b64::EncodeConfig pick_encode(mc::Ctx& x)
{
    b64::EncodeConfig c;
    c.url_safe_variant = x.choose(2);
    c.use_padding = x.choose(2);
    c.line_size = std::size_t(x.pick({0, 1, 2, 3, 4, 5, 76}));
    return c;
}
b64::DecodeConfig pick_decode(mc::Ctx& x)
{
    b64::DecodeConfig c;
    c.url_safe_variant = x.choose(2);
    c.padding = b64::DecodeConfig::Padding(x.choose(3));
    c.allow_whitespace = x.choose(2);
    return c;
}

b64::DecodeConfig inverse(const b64::EncodeConfig& c, bool strict)
{
    b64::DecodeConfig d;
    d.url_safe_variant = c.url_safe_variant;
    d.padding = !strict ? b64::DecodeConfig::allow : c.use_padding ? b64::DecodeConfig::require : b64::DecodeConfig::reject;
    d.allow_whitespace = c.line_size > 0;
    return d;
}

std::wstring wide(std::string_view s) { std::wstring w; for (char c : s) w += wchar_t(uchar(c)); return w; }

struct OneShot {
    std::vector<char> mem; // exact sized heap block
};

void check_encode(mc::Ctx& x, const std::string& d, const b64::EncodeConfig& c, bool all)
{
    std::string e = ref_encode(d, c);
    x.eval();
    x.step();
    core::Buffer<char> buf;
    auto r = b64::encode<char>(d, buf, c);
    MC_CHECK(x, r == e, mc::esc(d), " encoded as ", mc::esc(r), " instead of ", mc::esc(e));
    MC_CHECK(x, b64::encode_buffer_size(d.size(), c) == e.size(), "encode_buffer_size(", d.size(), ")");
    b64::DecodeConfig dc = inverse(c, true);
    auto q = b64::decode(std::string_view(e), buf, dc);

    MC_CHECK(x, std::string_view(q.data(), q.size()) == d);
    core::Buffer<char> buf2;
    auto q2 = b64::decode(std::string_view(e), buf2, dc);
    MC_CHECK(x, std::string_view(q2.data(), q2.size()) == d, "decoding ", mc::esc(e), " gives ", mc::esc(std::string_view(q2.data(), q2.size())));
    if (!all) return;
    std::locale loc = std::locale::classic();
    core::Buffer<char> buf3;
    MC_CHECK(x, b64::encode<char>(d, buf3, loc, c) == e);
    core::Buffer<wchar_t> wbuf;
    MC_CHECK(x, b64::encode<wchar_t>(d, wbuf, loc, c) == wide(e), "wide encoding");
    MC_CHECK(x, b64::encode<wchar_t>(d, wbuf, c) == wide(e), "wide encoding");
    core::Buffer<char> buf4;
    auto wq = b64::decode(std::wstring_view(wide(e)), buf4, loc, dc);
    MC_CHECK(x, std::string_view(wq.data(), wq.size()) == d, "wide decoding");
    // Encoding into buffers of all sizes
    for (std::size_t n = 0; n <= e.size() + 1; ++n) {
        std::vector<char> mem(n);
        std::size_t size = 777;
        bool insufficient = false;
        bool ok = b64::encode(d, core::Span<char>(mem.data(), n), size, insufficient, c);
        MC_CHECK(x, ok == (n >= e.size()), "buffer of ", n, " for ", e.size());
        if (ok) MC_CHECK(x, size == e.size() && !insufficient && std::string_view(mem.data(), size) == e);
        else MC_CHECK(x, insufficient && size == 777);
    }
}

void encode(mc::Ctx& x)
{
    auto c = pick_encode(x);
    int len = x.range(0, 3);
    x.shard_point();
    static const int alpha[] = { 0, 1, 3, 4, 15, 16, 62, 63, 64, 127, 128, 192, 251, 252, 254, 255 };
    std::string d(std::size_t(len), 0);
    if (len <= 1 || (len == 2 && (x.thorough || c.line_size == 0))) {
        for (int i = 0; i < (1 << (8 * len)); ++i) {
            for (int j = 0; j < len; ++j) d[std::size_t(j)] = char(i >> (8 * j));
            check_encode(x, d, c, len < 2);
        }
        return;
    }
    for (int i = 0; i < (1 << (4 * len)); ++i) {
        for (int j = 0; j < len; ++j) d[std::size_t(j)] = char(alpha[i >> (4 * j) & 15]);
        check_encode(x, d, c, false);
    }
}
mc::Scenario s_encode("encode", 64, encode);

void encode_long(mc::Ctx& x)
{
    auto c = pick_encode(x);
    x.shard_point();
    int max = x.thorough ? 800 : 420;
    for (int len = 0; len <= max; ++len) {
        std::string d;
        for (int i = 0; i < len; ++i) d += char(i * 37 + len);
        check_encode(x, d, c, len < 40 || (len % 3 == 0 && len > 180 && len < 200) || len == 384);
    }
}
mc::Scenario s_encode_long("encode_long", 28, encode_long);

void check_decode(mc::Ctx& x, const std::string& s, const b64::DecodeConfig& c, bool all)
{
    std::string out, prefix;
    bool expect = ref_decode(s, c, out, prefix);
    x.eval();
    x.step();
    {
        core::Buffer<char> buf;
        bool ok = true;
        std::string got;
        try { auto r = b64::decode(std::string_view(s), buf, c); got.assign(r.data(), r.size()); }
        catch (std::runtime_error&) { ok = false; }
        MC_CHECK(x, ok == expect, mc::esc(s), " url=", c.url_safe_variant, " padding=", int(c.padding), " ws=", c.allow_whitespace, " accepted=", ok);
        if (ok) MC_CHECK(x, got == out, mc::esc(s), " decoded as ", mc::esc(got), " instead of ", mc::esc(out));
        MC_CHECK(x, !ok || got.size() <= b64::decode_buffer_size(s.size()));
    }
    x.outcome(mc::mix(expect, out.size()));
    if (!all) return;
    {
        core::Buffer<char> buf;
        bool ok = true;
        std::string got;
        try { auto r = b64::decode(std::wstring_view(wide(s)), buf, c); got.assign(r.data(), r.size()); }
        catch (std::runtime_error&) { ok = false; }
        MC_CHECK(x, ok == expect, "wide ", mc::esc(s));
        if (ok) MC_CHECK(x, got == out, "wide ", mc::esc(s));
    }
    for (std::size_t n = 0; n <= out.size() + 1; ++n) {
        std::vector<char> mem(n);
        std::size_t size = 777;
        bool insufficient = false;
        bool ok = b64::decode(s, core::Span<char>(mem.data(), n), size, insufficient, c);
        if (expect) {
            MC_CHECK(x, ok == (n >= out.size()), mc::esc(s), " in buffer of ", n);
            if (ok) MC_CHECK(x, size == out.size() && std::string_view(mem.data(), size) == out);
            else MC_CHECK(x, insufficient && size == 777);
        }
        else {
            MC_CHECK(x, !ok && size == 777, mc::esc(s));
            if (n > prefix.size()) MC_CHECK(x, !insufficient, mc::esc(s), ": buffer space blamed for bad input");
        }
    }
}

void decode(mc::Ctx& x)
{
    auto c = pick_decode(x);
    static const char alpha[] = { 'A', 'B', 'Q', 'g', 'z', '/', '-', '=', ' ', '\n', '!', '\x80', '\0', '+', '_', '9' };
    int n = x.thorough ? 16 : 13;
    int len = x.range(0, 5);
    int first = len > 2 ? x.choose(n) : -1;
    x.shard_point();
    std::string s(std::size_t(len), 0);
    std::uint64_t num = 1;
    for (int i = 0; i < (first < 0 ? len : len - 1); ++i) num *= unsigned(n);
    for (std::uint64_t i = 0; i < num; ++i) {
        std::uint64_t k = i;
        int j = 0;
        if (first >= 0) s[std::size_t(j++)] = alpha[first];
        for (; j < len; ++j) { s[std::size_t(j)] = alpha[k % unsigned(n)]; k /= unsigned(n); }
        check_decode(x, s, c, len <= 4);
    }
}
mc::Scenario s_decode("decode", 256, decode);

// Any character at any position, and all final groups
void decode_any(mc::Ctx& x)
{
    auto c = pick_decode(x);
    x.shard_point();
    static const char* bases[] = { "AAAA", "QUJD", "QUJDRA==", "QUJDREU=", "QUJDRA", "QUJDREU", "QU JD\nRA = =\t", "QUJDREVGR0hJ", "Q", "QUJDRA=", "QUJDRA===", "==", "QUJD=", "QUJD====" };
    for (auto b : bases) {
        std::string s = b;
        check_decode(x, s, c, true);
        for (std::size_t p = 0; p < s.size(); ++p)
            for (int ch = 0; ch < 256; ++ch) {
                std::string t = s;
                t[p] = char(ch);
                check_decode(x, t, c, true);
                t = s;
                t.insert(p, 1, char(ch));
                check_decode(x, t, c, false);
            }
    }
    const char* t = c.url_safe_variant ? url_chars : std_chars;
    for (int a = 0; a < 64; ++a)
        for (int b = 0; b < 64; ++b) {
            for (const char* pad : { "", "=", "==" }) {
                check_decode(x, std::string("QUJD") + t[a] + t[b] + pad, c, false);
                check_decode(x, std::string("QUJD") + "Q" + t[a] + t[b] + pad, c, false);
            }
        }
    // Sizes around the internal buffer
    for (int len = 0; len < 600; ++len) {
        std::string s;
        for (int i = 0; i < len; ++i) s += t[(i * 11 + len) & 63];
        check_decode(x, s, c, len % 7 == 0 || (len > 250 && len < 262) || (len > 508 && len < 518));
    }
}
mc::Scenario s_decode_any("decode_any", 12, decode_any);

// Incremental interfaces: every division of input, all buffer sizes in every call
void inc_encode(mc::Ctx& x)
{
    b64::EncodeConfig c;
    c.url_safe_variant = x.choose(2);
    c.use_padding = x.choose(2);
    c.line_size = std::size_t(x.pick({0, 1, 3, 4, 5}));
    int len = x.range(0, x.thorough ? 8 : 7);
    x.shard_point();
    std::string d = std::string("\xFB\xFF\x00\x10\x83\x7F\xC3\x41", 8).substr(0, std::size_t(len));
    std::string e = ref_encode(d, c), got;
    b64::IncrementalEncoder enc(c);
    std::size_t i = 0;
    bool end = false;
    int bufmode = x.choose(4); // fixed buffer size 1, 2, 3 or a mix
    int calls = 0;
    for (;;) {
        // Give a new chunk
        std::size_t n = std::size_t(x.range(i < d.size() ? 1 : 0, int(d.size() - i)));
        if (n == d.size() - i) end = (n == 0 || x.choose(2));
        std::vector<char> in(d.begin() + std::ptrdiff_t(i), d.begin() + std::ptrdiff_t(i + n));
        const char* p = in.data();
        const char* pe = p + in.size();
        for (;;) {
            std::size_t k = std::size_t(bufmode < 3 ? bufmode + 1 : (calls % 3 == 0 ? 64 : calls % 3 - 1));
            MC_CHECK(x, ++calls < 200, "no progress");
            std::vector<char> mem(k);
            char* q = mem.data();
            char* qe = q + k;
            bool done = enc.encode(p, pe, end, q, qe);
            got.append(mem.data(), std::size_t(q - mem.data()));
            x.step();
            MC_CHECK(x, q <= qe && p <= pe);
            if (done) {
                MC_CHECK(x, end && p == pe, "premature completion");
                MC_CHECK(x, got == e, "got ", mc::esc(got), " instead of ", mc::esc(e));
                x.state(mc::hash_str(got));
                return;
            }
            if (q == qe) continue; // more space needed
            MC_CHECK(x, p == pe && !end, "stopped without reason");
            break;
        }
        i += n;
    }
}
mc::Scenario s_inc_encode("inc_encode", 64, inc_encode);

void inc_decode(mc::Ctx& x)
{
    static const char* inputs[] = { "", "QQ", "QQ==", "QUI", "QUI=", "QUJD", "Q UI\n= ", "QUJDRA==", "QUJDREU", "QR==", "QQ=", "QQ=A", "QQ===", "Q", "QUJ!", "QUJD=", "Q=", "QQ= =", "QQ=!", "QUJDQQ==" };
    std::string s = x.pick(inputs);
    auto c = pick_decode(x);
    if (c.url_safe_variant) x.prune();
    x.shard_point();
    std::string out, prefix, got;
    bool expect = ref_decode(s, c, out, prefix);
    b64::IncrementalDecoder dec(c);
    std::size_t i = 0;
    bool end = false;
    int bufmode = x.choose(4);
    int calls = 0, stuck = 0;
    for (;;) {
        std::size_t n = std::size_t(x.range(s.size() == i ? 0 : 1, int(s.size() - i)));
        if (n == s.size() - i) end = (n == 0 || x.choose(2));
        std::vector<char> in(s.begin() + std::ptrdiff_t(i), s.begin() + std::ptrdiff_t(i + n));
        const char* p = in.data();
        const char* pe = p + in.size();
        for (;;) {
            std::size_t k = std::size_t(bufmode < 3 ? bufmode + 1 : (calls % 3 == 0 ? 64 : calls % 3 - 1));
            MC_CHECK(x, ++calls < 200, "no progress");
            std::vector<char> mem(k);
            char* q = mem.data();
            char* qe = q + k;
            const char* p0 = p;
            bool done = dec.decode(p, pe, end, q, qe);
            got.append(mem.data(), std::size_t(q - mem.data()));
            x.step();
            MC_CHECK(x, q <= qe && p <= pe);
            MC_CHECK(x, got == prefix.substr(0, got.size()), "wrong bytes ", mc::esc(got));
            if (done) {
                MC_CHECK(x, end && p == pe && expect, mc::esc(s), " accepted");
                MC_CHECK(x, got == out, mc::esc(s), " gives ", mc::esc(got));
                x.state(mc::hash_str(got));
                return;
            }
            if (q == qe && (k > 0 || p != p0 || stuck < 3)) {
                stuck = (k == 0 && p == p0) ? stuck + 1 : 0;
                continue;
            }
            if (p == pe && !end) break; // next chunk
            MC_CHECK(x, !expect, mc::esc(s), " rejected after ", mc::esc(got));
            x.state(mc::hash_str(got, 1));
            return;
        }
        i += n;
    }
}
mc::Scenario s_inc_decode("inc_decode", 64, inc_decode);

} // namespace
