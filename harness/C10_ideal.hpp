// C10, C11: parts of an ideal text file: characters decoded and encoded one at a time
#pragma once
#include "mc.hpp"
#include "fakefs.hpp"
#include <locale>
#include <optional>
#include <archon/core/assert.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/text_file.hpp>
#include <archon/core/buffered_text_file.hpp>
using namespace archon;
using mc::str;

namespace txt {

// A stateful encoding: 0x0E selects mode B, 0x0F selects mode A (initial). Mode A: one byte
// 0x20..0x7E. Mode B: two digits (U+3000 + number); newline and carriage return in both.
struct ShiftCvt : std::codecvt<wchar_t, char, std::mbstate_t> {
    explicit ShiftCvt(std::size_t refs = 0) : std::codecvt<wchar_t, char, std::mbstate_t>(refs) {}
    static int& mode(std::mbstate_t& s) { return s.__count; }
    static int one(int mode_in, int& mode_out, const char* p, const char* e, wchar_t& ch, int& len)
    {
        mode_out = mode_in;
        unsigned char c = (unsigned char)*p;
        len = 1;
        if (c == 0x0E || c == 0x0F) { mode_out = c == 0x0E; return 0; }
        if (c == '\n' || c == '\r') { ch = wchar_t(c); return 1; }
        if (mode_in == 0) { if (c >= 0x20 && c < 0x7F) { ch = wchar_t(c); return 1; } return -1; }
        if (c < '0' || c > '9') return -1;
        if (e - p < 2) return -2;
        unsigned char d = (unsigned char)p[1];
        if (d < '0' || d > '9') return -1;
        len = 2;
        ch = wchar_t(0x3000 + (c - '0') * 10 + (d - '0'));
        return 1;
    }
    result do_in(std::mbstate_t& st, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const override
    {
        while (f < fe) {
            int m, len; wchar_t ch;
            int r = one(mode(st), m, f, fe, ch, len);
            if (r == -1) { fn = f; tn = t; return error; }
            if (r == -2) { fn = fe; tn = t; st.__value.__wch = 1; return ok; }
            if (r == 1) { if (t == te) { fn = f; tn = t; return partial; } *t++ = ch; }
            mode(st) = m;
            f += len;
        }
        fn = f; tn = t;
        return ok;
    }
    int do_length(std::mbstate_t& st, const char* f, const char* fe, std::size_t max) const override
    {
        const char* f0 = f;
        while (f < fe) {
            int m, len; wchar_t ch;
            int r = one(mode(st), m, f, fe, ch, len);
            if (r < 0) break;
            if (r == 1) { if (max == 0) break; --max; }
            mode(st) = m;
            f += len;
        }
        return int(f - f0);
    }
    static int enc(wchar_t c, int& m, char* b)
    {
        int need = c == L'\n' || c == L'\r' ? m : c >= 0x20 && c < 0x7F ? 0 : c >= 0x3000 && c < 0x3064 ? 1 : -1;
        if (need < 0) return -1;
        int n = 0;
        if (need != m) b[n++] = need ? 0x0E : 0x0F;
        if (c >= 0x3000) { b[n++] = char('0' + (c - 0x3000) / 10); b[n++] = char('0' + (c - 0x3000) % 10); }
        else b[n++] = char(c);
        m = need;
        return n;
    }
    result do_out(std::mbstate_t& st, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const override
    {
        for (; f < fe; ++f) {
            char b[3];
            int m = mode(st);
            int n = enc(*f, m, b);
            if (n < 0) { fn = f; tn = t; return error; }
            if (te - t < n) { fn = f; tn = t; return partial; }
            for (int i = 0; i < n; ++i) *t++ = b[i];
            mode(st) = m;
        }
        fn = f; tn = t;
        return ok;
    }
    result do_unshift(std::mbstate_t& st, char* t, char* te, char*& tn) const override
    {
        tn = t;
        if (mode(st) == 0) return noconv;
        if (t == te) return partial;
        *t++ = 0x0F;
        tn = t;
        mode(st) = 0;
        return ok;
    }
    int do_encoding() const noexcept override { return -1; }
    int do_max_length() const noexcept override { return 3; }
    bool do_always_noconv() const noexcept override { return false; }
};

inline const std::locale& utf8() { static std::locale l("C.utf8"); return l; }
inline const std::locale& shift() { static std::locale l(std::locale("C"), new ShiftCvt); return l; }

template<class F> constexpr bool is_wide = std::is_same_v<typename F::char_type, wchar_t>;
template<class F> constexpr bool is_buffered = requires (F& f) { f.write_line(std::basic_string<typename F::char_type>()); };
template<class F> constexpr bool is_windows = F::impl_type::has_windows_newline_codec;

// Decoding of one character at byte position p
enum Kind { ok, end, incomplete, invalid };
struct Unit { Kind kind; unsigned ch; std::size_t next; int mode; };

template<class F, bool shifted> Unit unit_at(const std::string& d, std::size_t p, int mode, bool dynamic)
{
    Unit u = { end, 0, p, mode };
    for (;;) {
        if (p >= d.size()) { u.kind = end; u.mode = mode; return u; }
        unsigned char c = (unsigned char)d[p];
        if (is_windows<F> && c == '\r') {
            if (p + 1 < d.size()) {
                bool nl = d[p + 1] == '\n';
                return { ok, nl ? '\n' : unsigned('\r'), p + 1 + nl, mode };
            }
            if (dynamic) { u.kind = incomplete; return u; }
            return { ok, '\r', p + 1, mode };
        }
        if constexpr (!is_wide<F>)
            return { ok, c, p + 1, mode };
        if constexpr (shifted) {
            int m, len; wchar_t ch;
            int r = ShiftCvt::one(mode, m, d.data() + p, d.data() + d.size(), ch, len);
            if (r == -1) { u.kind = invalid; return u; }
            if (r == -2) { u.kind = incomplete; return u; }
            mode = m;
            p += std::size_t(len);
            if (r == 0) continue;
            return { ok, unsigned(ch), p, mode };
        }
        // UTF-8
        int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
        if (n < 0) { u.kind = invalid; return u; }
        unsigned v = n == 0 ? c : c & (0x3F >> n);
        for (int i = 1; i <= n; ++i) {
            if (p + std::size_t(i) >= d.size()) { u.kind = incomplete; return u; }
            unsigned char e = (unsigned char)d[p + std::size_t(i)];
            unsigned lo = 0x80, hi = 0xBF;
            if (i == 1) { if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F; }
            if (e < lo || e > hi) { u.kind = invalid; return u; }
            v = (v << 6) | (e & 0x3F);
        }
        return { ok, v, p + 1 + std::size_t(n), mode };
    }
}

// Encoding of one character; empty if impossible
template<class F, bool shifted> std::string encode(typename F::char_type ch, int& mode)
{
    if (is_windows<F> && ch == '\n') return "\r\n";
    if constexpr (!is_wide<F>) return std::string(1, char(ch));
    else if constexpr (shifted) {
        char b[3];
        int n = ShiftCvt::enc(ch, mode, b);
        return n < 0 ? std::string() : std::string(b, b + n);
    }
    else {
        unsigned v = unsigned(ch);
        if (v < 0x80) return std::string(1, char(v));
        if (v < 0x800) return { char(0xC0 | v >> 6), char(0x80 | (v & 0x3F)) };
        if (v >= 0xD800 && v < 0xE000) return {};
        if (v < 0x10000) return { char(0xE0 | v >> 12), char(0x80 | (v >> 6 & 0x3F)), char(0x80 | (v & 0x3F)) };
        if (v < 0x110000) return { char(0xF0 | v >> 18), char(0x80 | (v >> 12 & 0x3F)), char(0x80 | (v >> 6 & 0x3F)), char(0x80 | (v & 0x3F)) };
        return {};
    }
}

template<class C> std::string show(const C* p, std::size_t n)
{
    std::string r = "\"";
    for (std::size_t i = 0; i < n; ++i) {
        unsigned c = unsigned(std::make_unsigned_t<C>(p[i]));
        if (c >= 0x20 && c < 0x7F) r += char(c);
        else { char b[16]; std::snprintf(b, sizeof b, "{%X}", c); r += b; }
    }
    return r + "\"";
}
inline std::string show(const std::string& s) { return show(s.data(), s.size()); }

struct Conf { bool dynamic = false, no_autounshift = false; std::size_t a, b, c; };

template<class F> void configure(typename F::Config& cfg, const Conf& k)
{
    cfg.dynamic_eof = k.dynamic;
    cfg.disable_autounshift = k.no_autounshift;
    auto f = [&](auto& c) {
        if constexpr (requires { c.newline_codec_buffer_size; }) c.newline_codec_buffer_size = k.a;
        if constexpr (requires { c.char_codec_buffer_size; }) c.char_codec_buffer_size = k.b;
    };
    if constexpr (requires { cfg.impl.buffer_size; }) { cfg.impl.buffer_size = k.c; f(cfg.impl.subimpl); }
    else f(cfg.impl);
}

} // namespace txt
