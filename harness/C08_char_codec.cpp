// C08: locale based character codecs (core/impl/char_codec.hpp) and text codecs (core/text_codec.hpp).
// Oracle: mbrtowc()/wcrtomb() of the same locale, applied to one character at a time; for the
// stateful case, a direct model of the shift encoding.
#include "mc.hpp"
#include <clocale>
#include <cwchar>
#include <locale>
#include <string>
#include <vector>
#include <archon/core/char_codec.hpp>
#include <archon/core/text_codec.hpp>
#include <archon/core/string_codec.hpp>
#include <archon/core/array_seeded_buffer.hpp>
using namespace archon;

namespace {

// A stateful encoding. 0x0E selects mode B, 0x0F selects mode A (initial). Mode A: one byte
// 0x20..0x7E. Mode B: two bytes '0'..'9' (denotes U+3000 + number) with newline also valid.
// Behaves like the codecvt facets of libstdc++ with respect to incomplete input
// (consumed into the state; result is `ok`).
struct ShiftCvt : std::codecvt<wchar_t, char, std::mbstate_t> {
    explicit ShiftCvt(std::size_t refs = 0) : std::codecvt<wchar_t, char, std::mbstate_t>(refs) {}
    static int& mode(std::mbstate_t& s) { return s.__count; }
    // 1: character, 0: shift, -1: invalid, -2: incomplete
    static int one(int mode_in, int& mode_out, const char* p, const char* e, wchar_t& ch, int& len)
    {
        mode_out = mode_in;
        unsigned char c = (unsigned char)*p;
        len = 1;
        if (c == 0x0E || c == 0x0F) { mode_out = c == 0x0E; return 0; }
        if (mode_in == 0) { if ((c >= 0x20 && c < 0x7F) || c == '\n' || c == '\r') { ch = wchar_t(c); return 1; } return -1; }
        if (c == '\n' || c == '\r') { ch = wchar_t(c); return 1; }
        if (c < '0' || c > '9') return -1;
        if (e - p < 2) return -2;
        unsigned char d = (unsigned char)p[1];
        if (d < '0' || d > '9') return -1;
        len = 2;
        ch = wchar_t(0x3000 + (c - '0') * 10 + (d - '0'));
        return 1;
    }
    result do_in(std::mbstate_t& st, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const override
    {
        while (f < fe) {
            int m, len; wchar_t ch;
            int r = one(mode(st), m, f, fe, ch, len);
            if (r == -1) { fn = f; tn = t; return error; }
            if (r == -2) { fn = fe; tn = t; st.__value.__wch = 1; return ok; }
            if (r == 1) { if (t == te) { fn = f; tn = t; return partial; } *t++ = ch; }
            mode(st) = m;
            f += len;
        }
        fn = f; tn = t;
        return ok;
    }
    int do_length(std::mbstate_t& st, const char* f, const char* fe, std::size_t max) const override
    {
        const char* f0 = f;
        while (f < fe) {
            int m, len; wchar_t ch;
            int r = one(mode(st), m, f, fe, ch, len);
            if (r < 0) break;
            if (r == 1) { if (max == 0) break; --max; }
            mode(st) = m;
            f += len;
        }
        return int(f - f0);
    }
    result do_out(std::mbstate_t& st, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const override
    {
        for (; f < fe; ++f) {
            wchar_t c = *f;
            int need = c == L'\n' || c == L'\r' ? mode(st) : c >= 0x20 && c < 0x7F ? 0 : c >= 0x3000 && c < 0x3064 ? 1 : -1;
            if (need < 0) { fn = f; tn = t; return error; }
            char b[3]; int n = 0;
            if (need != mode(st)) b[n++] = need ? 0x0E : 0x0F;
            if (need && c >= 0x3000) { b[n++] = char('0' + (c - 0x3000) / 10); b[n++] = char('0' + (c - 0x3000) % 10); }
            else b[n++] = char(c);
            if (te - t < n) { fn = f; tn = t; return partial; }
            for (int i = 0; i < n; ++i) *t++ = b[i];
            mode(st) = need;
        }
        fn = f; tn = t;
        return ok;
    }
    result do_unshift(std::mbstate_t& st, char* t, char* te, char*& tn) const override
    {
        tn = t;
        if (mode(st) == 0) return noconv;
        if (t == te) return partial;
        *t++ = 0x0F;
        tn = t;
        mode(st) = 0;
        return ok;
    }
    int do_encoding() const noexcept override { return -1; }
    int do_max_length() const noexcept override { return 3; }
    bool do_always_noconv() const noexcept override { return false; }
};

enum { loc_c, loc_utf8, loc_shift };
const std::locale& get_locale(int k)
{
    static std::locale c("C"), u("C.utf8"), s(std::locale("C"), new ShiftCvt);
    return k == loc_c ? c : k == loc_utf8 ? u : s;
}
struct UseLocale {
    locale_t l, old;
    UseLocale(int k) { static locale_t a = newlocale(LC_ALL_MASK, "C", 0), b = newlocale(LC_ALL_MASK, "C.utf8", 0); l = k == loc_utf8 ? b : a; old = uselocale(l); }
    ~UseLocale() { uselocale(old); }
};

struct Unit { int kind; int len; wchar_t ch; int mode; }; // 1: char, 0: shift, -1 invalid, -2 incomplete
Unit unit_at(int k, const std::string& s, std::size_t i, int mode)
{
    Unit u = { -1, 1, 0, mode };
    if (k == loc_shift) {
        int m, len = 1; wchar_t ch = 0;
        u.kind = ShiftCvt::one(mode, m, s.data() + i, s.data() + s.size(), ch, len);
        u.len = len; u.ch = ch; u.mode = m;
        return u;
    }
    UseLocale ul(k);
    std::mbstate_t st = {};
    wchar_t ch = 0;
    std::size_t n = std::mbrtowc(&ch, s.data() + i, s.size() - i, &st);
    if (n == std::size_t(-1)) u.kind = -1;
    else if (n == std::size_t(-2)) u.kind = -2;
    else { u.kind = 1; u.len = n == 0 ? 1 : int(n); u.ch = ch; }
    return u;
}

struct Ref { std::wstring chars; std::size_t stop; bool bad; int mode; std::vector<std::size_t> ends; /* byte offset after n characters */ };
Ref ref_decode(int k, const std::string& s)
{
    Ref r;
    r.bad = false;
    std::size_t i = 0;
    int mode = 0;
    r.ends.push_back(0);
    while (i < s.size()) {
        Unit u = unit_at(k, s, i, mode);
        if (u.kind < 0) { r.bad = true; break; }
        i += std::size_t(u.len);
        mode = u.mode;
        if (u.kind == 1) { r.chars += u.ch; r.ends.push_back(i); }
    }
    r.stop = i;
    r.mode = mode;
    return r;
}
// encoding of one character; empty if not encodable
std::string enc_char(int k, wchar_t c, int& mode)
{
    if (k == loc_shift) {
        ShiftCvt cvt(1);
        std::mbstate_t st = {};
        st.__count = mode;
        char b[4]; char* tn; const wchar_t* fn;
        if (cvt.do_out(st, &c, &c + 1, fn, b, b + 4, tn) != std::codecvt_base::ok) return {};
        mode = st.__count;
        return std::string(b, tn);
    }
    UseLocale ul(k);
    std::mbstate_t st = {};
    char b[16];
    std::size_t n = std::wcrtomb(b, c, &st);
    if (n == std::size_t(-1)) return {};
    return std::string(b, n);
}
std::string wshow(const std::wstring& w) { std::string r = "["; char b[16]; for (wchar_t c : w) { std::snprintf(b, sizeof b, "%s%X", r.size() > 1 ? " " : "", unsigned(c)); r += b; } return r + "]"; }

const std::vector<std::string>& dec_tokens(int k)
{
    static const std::vector<std::string> u = { "a", "\xC3\xA6", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", std::string("\0", 1), "\x80", "\xFF", "\xC0\x80", "\xE2\x82", "\xF0", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xE2" };
    static const std::vector<std::string> c = { "a", "\n", std::string("\0", 1), "\x80", "\xFF", "\xE2\x82\xAC" };
    static const std::vector<std::string> s = { "a", "5", "12", "\x0E", "\x0F", "\x80", "\n", "\x0E" "34\x0F" };
    return k == loc_utf8 ? u : k == loc_c ? c : s;
}
const std::vector<wchar_t>& enc_chars(int k)
{
    static const std::vector<wchar_t> u = { 'a', 0xE6, 0x20AC, 0x1F600, 0, 0x10FFFF, 0xD800, 0x110000, 0x7FFFFFFF };
    static const std::vector<wchar_t> c = { 'a', '\n', 0, 0x80, 0x20AC, 0x7F };
    static const std::vector<wchar_t> s = { 'a', '\n', 0x3000, 0x3022, 0x20AC, '5' };
    return k == loc_utf8 ? u : k == loc_c ? c : s;
}

struct DecRun { std::wstring out; std::size_t pos; bool error; int mode; };

template<class Codec> DecRun run_decode(mc::Ctx& x, const Codec& codec, const std::string& s, unsigned split, std::size_t out_size, bool lenient)
{
    DecRun r = { {}, 0, false, 0 };
    std::mbstate_t st = {};
    std::size_t at = 0;
    std::string pend;
    for (;;) {
        std::size_t next = at;
        while (next < s.size()) { ++next; if (next < s.size() && (split >> (next - 1) & 1)) break; }
        pend += s.substr(at, next - at);
        at = next;
        bool end = at == s.size();
        std::size_t off = 0;
        std::vector<char> in(pend.begin(), pend.end());
        for (int guard = 0;; ++guard) {
            if (guard > 1000) x.fail(mc::str("decode of ", mc::esc(s), " makes no progress"));
            std::vector<wchar_t> buf(out_size + 1, L'#');
            std::size_t o = 0, off0 = off;
            bool err = false;
            bool complete = codec.decode(st, core::Span<const char>(in.data(), in.size()), off, end, core::Span<wchar_t>(buf.data(), out_size), o, err);
            x.step();
            if (off < off0 || off > in.size() || o > out_size || buf[out_size] != L'#') x.fail(mc::str("decode of ", mc::esc(s), ": bad offsets"));
            r.out.append(buf.data(), o);
            if (complete) {
                if (err) x.fail(mc::str("decode of ", mc::esc(s), ": error flag changed on completion"));
                if (end && off != in.size()) x.fail(mc::str("decode of ", mc::esc(s), ": complete at end without consuming all input"));
                break;
            }
            if (err) {
                if (lenient) x.fail(mc::str("lenient decode of ", mc::esc(s), " reported error at ", at - in.size() + off));
                if (off >= in.size()) x.fail("error reported at end of input");
                r.error = true;
                r.pos = at - in.size() + off;
                r.mode = st.__count;
                return r;
            }
            if (o != out_size) x.fail(mc::str("decode of ", mc::esc(s), ": incomplete without error and with space left"));
            if (out_size == 0) { r.pos = at - in.size() + off; return r; }
        }
        pend.erase(0, off);
        r.pos = at - pend.size();
        if (end) { r.mode = st.__count; return r; }
    }
}

// In libstdc++, std::codecvt processes text in pieces separated by null characters, and does
// not notice when a null character interrupts a multi-byte character.
bool libstdcxx_nul_quirk(const std::string& s)
{
    for (std::size_t i = 1; i < s.size(); ++i) {
        if (s[i] != 0) continue;
        std::string p = s.substr(0, i);
        for (std::size_t j = 0; j < i; ++j)
            if (unit_at(loc_utf8, p, j, 0).kind == -2) return true;
    }
    return false;
}
template<bool lenient_codec> void decode_case(mc::Ctx& x, int k, const std::string& s)
{
    Ref ref = ref_decode(k, s);
    unsigned splits = s.empty() ? 1 : 1u << (s.size() - 1);
    {
        core::WideSimpleCharCodec a(get_locale(k));
        core::WideCharCodec b(get_locale(k));
        for (unsigned sp = 0; sp < splits; ++sp)
            for (std::size_t o : { 1, 2, 3, 16 })
                for (int w = 0; w < 2; ++w) {
                    DecRun r = w ? run_decode(x, b, s, sp, o, false) : run_decode(x, a, s, sp, o, false);
                    x.eval();
                    if (r.out != ref.chars || r.error != ref.bad || r.pos != ref.stop || (k == loc_shift && r.mode != ref.mode))
                        x.fail(mc::str("decode of ", mc::esc(s), " (locale ", k, ", division ", sp, ", buffers of ", o, "): ", wshow(r.out), " error ", r.error, " at ", r.pos, " shift state ", r.mode, ", expected ", wshow(ref.chars), " error ", ref.bad, " at ", ref.stop, " shift state ", ref.mode));
                }
        // simulated decoding
        for (std::size_t n = 0; n <= ref.chars.size(); ++n) {
            std::mbstate_t st = {};
            std::size_t off = 0;
            b.simul_decode(st, core::Span<const char>(s.data(), s.size()), off, n);
            if (k == loc_shift) {
                std::mbstate_t st2 = {};
                std::size_t off2 = ref.ends[n], m = 0;
                if (off < off2 || (n < ref.chars.size() && off >= ref.ends[n + 1])) x.fail(mc::str("simul_decode of ", n, " characters of ", mc::esc(s), " consumed ", off, " bytes, expected ", off2));
                (void)st2; (void)m;
            }
            else if (off != ref.ends[n]) x.fail(mc::str("simul_decode of ", n, " characters of ", mc::esc(s), " in locale ", k, " consumed ", off, " bytes, expected ", ref.ends[n]));
        }
    }
    {
        core::WideCharCodec::Config cfg;
        cfg.lenient = true;
        core::WideCharCodec c(get_locale(k), cfg);
        DecRun one = run_decode(x, c, s, 0, 64, true);
        // Valid characters must come through, every run of invalid bytes as at least one replacement
        if (k != loc_shift) {
            std::size_t i = 0, j = 0;
            bool fine = true;
            wchar_t rep = k == loc_utf8 ? wchar_t(0xFFFD) : L'?';
            while (i < s.size() && fine) {
                Unit u = unit_at(k, s, i, 0);
                if (u.kind == 1) { fine = j < one.out.size() && one.out[j] == u.ch; ++j; i += std::size_t(u.len); continue; }
                std::size_t i0 = i, reps = 0;
                while (i < s.size() && unit_at(k, s, i, 0).kind != 1) ++i;
                while (j < one.out.size() && one.out[j] == rep && reps < i - i0) { ++j; ++reps; }
                fine = reps > 0;
            }
            if (!fine || j != one.out.size()) x.fail(mc::str("lenient decode of ", mc::esc(s), " in locale ", k, ": ", wshow(one.out)));
        }
        std::vector<std::size_t> ends; // as defined by decoding with limited buffer
        for (std::size_t n = 0; n <= one.out.size(); ++n) {
            std::mbstate_t st = {};
            std::size_t off = 0, o = 0;
            std::vector<wchar_t> buf(n + 1);
            bool err = false;
            c.decode(st, core::Span<const char>(s.data(), s.size()), off, true, core::Span<wchar_t>(buf.data(), n), o, err);
            std::mbstate_t st2 = {};
            std::size_t off2 = 0;
            c.simul_decode(st2, core::Span<const char>(s.data(), s.size()), off2, n);
            if (off != off2 && k != loc_shift) x.fail(mc::str("lenient simul_decode of ", n, " characters of ", mc::esc(s), " in locale ", k, " consumed ", off2, " bytes, decode consumed ", off));
        }
        for (unsigned sp = 0; sp < splits; ++sp)
            for (std::size_t o : { 1, 2, 3, 16 }) {
                DecRun r = run_decode(x, c, s, sp, o, true);
                x.eval();
                if (r.out != one.out || r.pos != s.size())
                    x.fail(mc::str("lenient decode of ", mc::esc(s), " (locale ", k, ", division ", sp, ", buffers of ", o, "): ", wshow(r.out), " consumed ", r.pos, ", in one step: ", wshow(one.out)));
            }
    }
    x.state(mc::hash_str(s, k));
    x.outcome(mc::mix(ref.stop, ref.chars.size()));
}

template<class T> std::string choose_text(mc::Ctx& x, const std::vector<std::string>& t, T max)
{
    std::string s;
    int n = x.range(0, max);
    for (int i = 0; i < n; ++i) { s += t[std::size_t(x.choose(int(t.size())))]; if (i == 0) x.shard_point(); }
    if (n == 0) x.shard_point();
    return s;
}
mc::Scenario d1("decode_utf8", 40, [](mc::Ctx& x) {
    std::string s = choose_text(x, dec_tokens(loc_utf8), x.thorough ? 4 : 3);
    if (s.size() > (x.thorough ? 10u : 8u) || libstdcxx_nul_quirk(s)) x.prune();
    MC_TRACE(x, mc::esc(s));
    decode_case<true>(x, loc_utf8, s);
    mc::heartbeat();
});
mc::Scenario d2("decode_c", 16, [](mc::Ctx& x) {
    std::string s = choose_text(x, dec_tokens(loc_c), x.thorough ? 5 : 4);
    MC_TRACE(x, mc::esc(s));
    if (s.size() > 8) x.prune();
    decode_case<true>(x, loc_c, s);
});
mc::Scenario d3("decode_shift", 32, [](mc::Ctx& x) {
    std::string s = choose_text(x, dec_tokens(loc_shift), x.thorough ? 5 : 4);
    MC_TRACE(x, mc::esc(s));
    if (s.size() > 9) x.prune();
    decode_case<true>(x, loc_shift, s);
});

struct EncRun { std::string out; std::size_t pos; bool error; int mode; };
template<class Codec> EncRun run_encode(mc::Ctx& x, const Codec& codec, const std::wstring& w, unsigned split, std::size_t out_size, bool lenient)
{
    EncRun r = { {}, 0, false, 0 };
    std::mbstate_t st = {};
    std::size_t at = 0;
    while (at < w.size()) {
        std::size_t next = at;
        while (next < w.size()) { ++next; if (next < w.size() && (split >> (next - 1) & 1)) break; }
        std::vector<wchar_t> in(w.begin() + long(at), w.begin() + long(next));
        std::size_t off = 0, osize = out_size;
        for (int guard = 0;; ++guard) {
            if (guard > 1000) x.fail(mc::str("encode of ", wshow(w), " makes no progress"));
            std::vector<char> buf(osize + 1, '#');
            std::size_t o = 0, off0 = off;
            bool err = false;
            bool complete = codec.encode(st, core::Span<const wchar_t>(in.data(), in.size()), off, core::Span<char>(buf.data(), osize), o, err);
            x.step();
            if (off < off0 || off > in.size() || o > osize || buf[osize] != '#') x.fail(mc::str("encode of ", wshow(w), ": bad offsets"));
            r.out.append(buf.data(), o);
            if (complete) { if (err || off != in.size()) x.fail(mc::str("encode of ", wshow(w), ": bad completion")); break; }
            if (err) {
                if (lenient) x.fail(mc::str("lenient encode of ", wshow(w), " failed"));
                if (off >= in.size()) x.fail("encode error reported at end of input");
                r.error = true;
                r.pos = at + off;
                r.mode = st.__count;
                return r;
            }
            if (off == off0) { // need more output space
                if (osize > 16) x.fail(mc::str("encode of ", wshow(w), " does not proceed with buffer of ", osize));
                ++osize;
            }
        }
        at = next;
    }
    r.pos = at;
    r.mode = st.__count;
    return r;
}
void encode_case(mc::Ctx& x, int k, const std::wstring& w)
{
    std::string e, le;
    std::size_t stop = 0;
    bool bad = false;
    int mode = 0, lmode = 0;
    for (wchar_t c : w) {
        if (!bad) { int m = mode; std::string b = enc_char(k, c, m); if (b.empty()) bad = true; else { e += b; mode = m; ++stop; } }
        std::string b = enc_char(k, c, lmode);
        if (b.empty()) b = enc_char(k, k == loc_utf8 ? 0xFFFD : L'?', lmode);
        le += b;
    }
    core::WideSimpleCharCodec a(get_locale(k));
    core::WideCharCodec::Config cfg;
    core::WideCharCodec b(get_locale(k), cfg);
    cfg.lenient = true;
    core::WideCharCodec c(get_locale(k), cfg);
    unsigned splits = w.empty() ? 1 : 1u << (w.size() - 1);
    for (unsigned sp = 0; sp < splits; ++sp)
        for (std::size_t o : { 1, 2, 3, 4, 5, 16 }) {
            for (int v = 0; v < 2; ++v) {
                EncRun r = v ? run_encode(x, b, w, sp, o, false) : run_encode(x, a, w, sp, o, false);
                x.eval();
                if (r.out != e || r.pos != stop || r.error != bad || (k == loc_shift && r.mode != mode))
                    x.fail(mc::str("encode of ", wshow(w), " (locale ", k, ", division ", sp, ", buffers of ", o, "): ", mc::esc(r.out), " error ", r.error, " at ", r.pos, ", expected ", mc::esc(e), " error ", bad, " at ", stop));
            }
            EncRun r = run_encode(x, c, w, sp, o, true);
            x.eval();
            if (r.out != le || r.pos != w.size())
                x.fail(mc::str("lenient encode of ", wshow(w), " (locale ", k, ", division ", sp, ", buffers of ", o, "): ", mc::esc(r.out), ", expected ", mc::esc(le)));
        }
    x.state(mc::hash_bytes(w.data(), w.size() * sizeof(wchar_t), k));
}
mc::Scenario e1("encode", 40, [](mc::Ctx& x) {
    int k = x.choose(3);
    const auto& t = enc_chars(k);
    int n = x.range(0, x.thorough ? 5 : 4);
    std::wstring w;
    for (int i = 0; i < n; ++i) { w += t[std::size_t(x.choose(int(t.size())))]; if (i == 0) x.shard_point(); }
    if (n == 0) x.shard_point();
    MC_TRACE(x, wshow(w));
    encode_case(x, k, w);
});

// Whole string text codecs: newline translation combined with character conversion, with
// amounts of filler chosen around the sizes of the internal buffers
const int fills[] = { 0, 1, 127, 254, 255, 256, 257, 508, 509, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025 };
std::string nl_enc(const std::string& s) { std::string r; for (char c : s) { if (c == '\n') r += '\r'; r += c; } return r; }
std::string nl_dec(const std::string& s) { std::string r; for (std::size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n') continue; r += s[i]; } return r; }

template<class Dec, class Enc, class Cod, bool windows, class C> void text_codec_case(mc::Ctx& x, int k)
{
    using String = std::basic_string<C>;
    constexpr bool wide = std::is_same_v<C, wchar_t>;
    std::string fill(std::size_t(x.pick(fills)), 'x');
    int seed = x.choose(3);
    static std::array<C, 300> cseed; static std::array<char, 300> bseed;
    core::Span<C> cs(cseed.data(), seed == 0 ? 0u : seed == 1 ? 3u : 300u);
    core::Span<char> bs(bseed.data(), seed == 0 ? 0u : seed == 1 ? 3u : 300u);
    std::vector<std::string> toks = dec_tokens(k);
    toks.push_back("\r\n"); toks.push_back("\r"); if (k == loc_utf8) toks.push_back("\n");
    x.shard_point();
    std::string t;
    bool do_encode = wide && x.choose(2) != 0;
    int n = do_encode ? 0 : x.range(0, x.thorough ? 3 : 2);
    for (int i = 0; i < n; ++i) t += toks[std::size_t(x.choose(int(toks.size())))];
    if (k == loc_utf8 && libstdcxx_nul_quirk(t)) x.prune();
    std::string s = fill + t;
    MC_TRACE(x, fill.size(), " x + ", mc::esc(t));
    // decode
    std::string s2 = windows ? nl_dec(s) : s;
    String e;
    bool bad = false;
    if constexpr (wide) { Ref r = ref_decode(k, s2); e = r.chars; bad = r.bad; }
    else e = s2;
    std::locale loc = get_locale(k);
    auto what = [&] { return mc::str("of ", fill.size(), " fill + ", mc::esc(t), " in locale ", k, windows ? " (Windows)" : "", wide ? " (wide)" : ""); };
    {
        Dec d(loc, cs);
        for (int rep = 0; rep < 2; ++rep) {
            std::basic_string_view<C> v;
            bool ok = d.try_decode_sc(s, v);
            x.eval();
            if (ok == bad || (ok && v != e)) x.fail(mc::str("try_decode_sc ", what(), ": ", ok, " size ", v.size(), ", expected ", !bad, " size ", e.size()));
            bool threw = false;
            try { if (d.decode_sc(s) != e) x.fail(mc::str("decode_sc ", what())); } catch (std::runtime_error&) { threw = true; }
            if (threw != bad) x.fail(mc::str("decode_sc exception ", threw, " ", what()));
        }
        Cod c(loc);
        core::Buffer<C> b(cs);
        std::size_t off = 0;
        b.append(String(1, C('p')), off);
        bool ok = c.try_decode(s, b, off);
        if (ok == bad || b.data()[0] != C('p') || (ok && std::basic_string_view<C>(b.data() + 1, off - 1) != e)) x.fail(mc::str("try_decode at offset ", what()));
        if (!bad) { core::Buffer<C> b2; if (c.decode(s, b2) != e) x.fail(mc::str("decode ", what())); }
        if (!windows && !bad) { if (core::decode_string<C>(s, loc) != e) x.fail(mc::str("decode_string ", what())); }
        if constexpr (wide) {
            typename Dec::Config cfg;
            cfg.lenient = true;
            Dec dl(loc, cs, cfg);
            std::basic_string_view<C> v;
            if (!dl.try_decode_sc(s, v)) x.fail(mc::str("lenient decode failed ", what()));
            if (!bad && v != e) x.fail(mc::str("lenient decode of valid text wrong ", what()));
        }
    }
    // encode
    String w;
    if constexpr (wide) {
        w = std::wstring(fill.size(), L'x');
        int m = do_encode ? x.range(0, x.thorough ? 3 : 2) : 0;
        std::vector<wchar_t> ch = enc_chars(k);
        ch.push_back(L'\n'); ch.push_back(L'\r');
        for (int i = 0; i < m; ++i) w += ch[std::size_t(x.choose(int(ch.size())))];
    }
    else w = s;
    std::string be;
    bool ebad = false;
    int mode = 0;
    if constexpr (wide) { for (wchar_t c : w) { std::string u = enc_char(k, c, mode); if (u.empty()) { ebad = true; break; } be += u; } if (mode) be += '\x0F'; }
    else be = w;
    if (windows) be = nl_enc(be);
    {
        Enc d(loc, bs);
        for (int rep = 0; rep < 2; ++rep) {
            std::string_view v;
            bool ok = d.try_encode_sc(w, v);
            x.eval();
            if (ok == ebad || (ok && v != be)) x.fail(mc::str("try_encode_sc ", what(), " / ", wide ? wshow(std::wstring(w.begin() + long(fill.size()), w.end())) : "", ": ", ok, " ", mc::esc(v.substr(std::min(v.size(), fill.size())))));
        }
        Cod c(loc);
        core::Buffer<char> b(bs);
        std::size_t off = 0;
        b.append(std::string("p"), off);
        bool ok = c.try_encode(w, b, off);
        if (ok == ebad || b.data()[0] != 'p' || (ok && std::string_view(b.data() + 1, off - 1) != be)) x.fail(mc::str("try_encode at offset ", what()));
        bool threw = false;
        core::Buffer<char> b2;
        try { if (c.encode(w, b2) != be) x.fail(mc::str("encode ", what())); } catch (std::runtime_error&) { threw = true; }
        if (threw != ebad) x.fail(mc::str("encode exception ", what()));
        if (!windows && !ebad) { if (core::encode_string<C>(std::basic_string_view<C>(w), loc) != be) x.fail(mc::str("encode_string ", what())); }
    }
    x.outcome(mc::mix(e.size(), be.size()));
    mc::heartbeat();
}
mc::Scenario t1("text_posix_wide_utf8", 54, [](mc::Ctx& x) { text_codec_case<core::WidePosixTextDecoder, core::WidePosixTextEncoder, core::WidePosixTextCodec, false, wchar_t>(x, loc_utf8); });
mc::Scenario t2("text_windows_wide_utf8", 54, [](mc::Ctx& x) { text_codec_case<core::WideWindowsTextDecoder, core::WideWindowsTextEncoder, core::WideWindowsTextCodec, true, wchar_t>(x, loc_utf8); });
mc::Scenario t3("text_windows_narrow", 54, [](mc::Ctx& x) { text_codec_case<core::WindowsTextDecoder, core::WindowsTextEncoder, core::WindowsTextCodec, true, char>(x, loc_c); });
mc::Scenario t4("text_posix_narrow", 54, [](mc::Ctx& x) { text_codec_case<core::PosixTextDecoder, core::PosixTextEncoder, core::PosixTextCodec, false, char>(x, loc_c); });
mc::Scenario t5("text_windows_wide_shift", 54, [](mc::Ctx& x) { text_codec_case<core::WideWindowsTextDecoder, core::WideWindowsTextEncoder, core::WideWindowsTextCodec, true, wchar_t>(x, loc_shift); });
mc::Scenario t6("text_wide_c", 54, [](mc::Ctx& x) { text_codec_case<core::WideTextDecoder, core::WideTextEncoder, core::WideTextCodec, false, wchar_t>(x, loc_c); });
} // namespace
