// C11: text file streams (core/text_file_stream.hpp) against an ideal text file
#include "C10_ideal.hpp"
#include <sstream>
#include <array>
#include <archon/core/text_file_stream.hpp>

namespace {

using namespace txt;

const char* const path = "/mcfake/f";

template<class I> struct Sys {
    using B = core::GenericTextFileStreambuf<I>;
    using C = typename B::char_type;
    using T = typename B::traits_type;
    using pos_type = typename T::pos_type;
    using str_t = std::basic_string<C>;
    mc::Ctx& x;
    fakefs::FS fs;
    core::File file;
    C memory[3] = {};
    std::unique_ptr<B> b;
    std::string d;       // ideal contents
    std::size_t p = 0;   // ideal position
    std::size_t start = 0; // where decoding of text in streambuf started
    bool dirty = false, pending = false; // file may be behind; streambuf may hold characters
    std::optional<std::size_t> before;   // position before last character if last operation advanced
    std::optional<std::pair<pos_type, std::size_t>> token;
    int errs = 0;

    Sys(mc::Ctx& x_, const Conf& k, const std::string& init, std::size_t size, bool own) : x(x_), d(init)
    {
        fakefs::fs = &fs;
        fs.add("f", init);
        file.open(std::filesystem::path(path), core::File::Mode::update);
        typename B::Config cfg;
        cfg.buffer_size = size;
        if (own) cfg.buffer_memory = core::Span<C>(memory, 3);
        cfg.disable_autounshift = k.no_autounshift;
        auto f = [&](auto& c) {
            if constexpr (requires { c.newline_codec_buffer_size; }) c.newline_codec_buffer_size = k.a;
            if constexpr (requires { c.char_codec_buffer_size; }) c.char_codec_buffer_size = k.b;
        };
        if constexpr (requires { cfg.impl.buffer_size; }) { cfg.impl.buffer_size = k.c; f(cfg.impl.subimpl); }
        else f(cfg.impl);
        b = std::make_unique<B>(file, utf8(), cfg);
    }
    ~Sys() { fs.faults = fs.meta_faults = false; b.reset(); file.close(); fakefs::fs = nullptr; }
    std::string& raw() { return fs.files[path]->data; }
    bool injected() { bool r = fs.num_err != errs; errs = fs.num_err; return r; }

    str_t expect(std::size_t max, std::vector<std::size_t>& pos)
    {
        str_t s;
        pos.assign(1, p);
        while (s.size() < max) {
            Unit u = unit_at<B, false>(d, pos.back(), 0, false);
            if (u.kind != ok) break;
            s += C(u.ch);
            pos.push_back(u.next);
        }
        return s;
    }
    // Reading of one or two characters, the last one remaining at current position when `peek`
    void get(int op)
    {
        std::vector<std::size_t> pos;
        str_t e = expect(2, pos);
        typename T::int_type c = op == 0 ? b->sgetc() : op == 1 ? b->sbumpc() : b->snextc();
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, op == 0 ? "sgetc" : op == 1 ? "sbumpc" : "snextc", " -> ", long(c));
        bool eof = T::eq_int_type(c, T::eof());
        if (op == 2) { // Consumes a character even when there is no next one
            if (eof) {
                MC_CHECK(x, e.size() < 2 || inj, "snextc reports end of file, expected ", show(e.data(), e.size()));
                if (inj) { // Find out whether the first character was consumed
                    fs.faults = fs.meta_faults = false;
                    pos_type t = b->pubseekoff(0, std::ios_base::cur);
                    std::size_t q = std::size_t(typename T::off_type(t));
                    if (t == pos_type(-1)) return gone();
                    MC_CHECK(x, q == p || (e.size() > 0 && q == pos[1]), "wrong position after error");
                    p = q;
                    fs.faults = fs.meta_faults = true;
                }
                else if (!e.empty()) p = pos[1];
                before.reset();
                return done_reading(inj);
            }
            MC_CHECK(x, !inj && e.size() == 2 && T::eq_int_type(c, T::to_int_type(e[1])), "snextc gives ", long(c), ", expected ", show(e.data(), e.size()));
            p = pos[1];
            before.reset();
            return done_reading(false);
        }
        if (eof) {
            MC_CHECK(x, e.empty() || inj, "end of file reported, expected ", show(e.data(), e.size()));
            before.reset();
            return done_reading(inj);
        }
        MC_CHECK(x, !inj && !e.empty() && T::eq_int_type(c, T::to_int_type(e[0])), "character ", long(c), " read, expected ", show(e.data(), e.size()));
        before.reset();
        if (op == 1) { before = p; p = pos[1]; }
        done_reading(false);
    }
    void done_reading(bool inj) { if (!inj) dirty = pending = false; }
    bool over = false;
    void gone() { over = true; }
    void getn(std::size_t n)
    {
        std::vector<C> buf(n + 2, C('#'));
        std::vector<std::size_t> pos;
        str_t e = expect(n, pos);
        std::streamsize m = b->sgetn(buf.data(), std::streamsize(n));
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "sgetn ", n, " -> ", m);
        MC_CHECK(x, m >= 0 && std::size_t(m) <= e.size() && std::equal(buf.begin(), buf.begin() + m, e.begin()), "sgetn ", n, " gives ", m, " characters ", show(buf.data(), std::size_t(m)), ", expected ", show(e.data(), e.size()));
        MC_CHECK(x, buf[n] == C('#') && buf[n + 1] == C('#'), "buffer exceeded");
        MC_CHECK(x, inj || std::size_t(m) == e.size(), "sgetn ", n, " gives only ", m, " of ", show(e.data(), e.size()));
        p = pos[std::size_t(m)];
        before.reset();
        if (std::size_t(m) == n && n > 0) before = pos[n - 1];
        done_reading(inj);
    }
    void unget(int op)
    {
        C prev = 0;
        bool have = false;
        std::size_t q = 0;
        for (std::size_t r = start; r < p;) { // find position of preceding character
            Unit u = unit_at<B, false>(d, r, 0, false);
            if (u.kind != ok) return x.prune();
            if (u.next > p) return x.prune();
            if (u.next == p) { have = true; prev = C(u.ch); q = r; }
            r = u.next;
        }
        C c = op == 1 ? prev : C('~');
        auto r = op == 0 ? b->sungetc() : b->sputbackc(c);
        if (x.tracing) MC_TRACE(x, op == 0 ? "sungetc" : "sputbackc", " -> ", long(r));
        if (T::eq_int_type(r, T::eof())) {
            MC_CHECK(x, !before || op == 2, "character could not be put back right after having been read");
            return;
        }
        MC_CHECK(x, op != 2, "wrong character accepted");
        MC_CHECK(x, !before || (have && q == *before), "harness: unexpected position");
        MC_CHECK(x, have && T::eq_int_type(r, T::to_int_type(prev)), "putting back gives ", long(r));
        p = q;
        before.reset();
    }
    void put(const std::string& bytes)
    {
        if (d.size() < p + bytes.size()) d.resize(p + bytes.size());
        d.replace(p, bytes.size(), bytes);
        p += bytes.size();
    }
    // Returns false when the stream is stuck on an unencodable character
    bool write(const str_t& s)
    {
        std::vector<std::string> parts;
        for (C c : s) {
            int m = 0;
            parts.push_back(encode<B, false>(c, m));
            if (parts.back().empty()) break;
        }
        bool bad = !parts.empty() && parts.back().empty();
        std::streamsize m;
        if (s.size() == 1) m = !T::eq_int_type(b->sputc(s[0]), T::eof());
        else m = b->sputn(s.data(), std::streamsize(s.size()));
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "write ", show(s.data(), s.size()), " -> ", m);
        MC_CHECK(x, m >= 0 && m <= std::streamsize(s.size()), "write reports ", m);
        MC_CHECK(x, m == std::streamsize(s.size()) || inj || bad, "write of ", s.size(), " characters reports ", m);
        before.reset();
        if (bad) {
            std::string pre;
            for (auto& e : parts) pre += e;
            put(pre);
            if (injected() || inj) return false;
            MC_CHECK(x, b->pubsync() == -1, "unencodable character goes unnoticed");
            if (injected()) return false;
            MC_CHECK(x, raw() == d, "after failure to encode, file contains ", show(raw()), ", expected ", show(d));
            return false;
        }
        if (m == 0 && inj) return true;
        std::string all;
        for (std::streamsize i = 0; i < m; ++i) all += parts[std::size_t(i)];
        put(all);
        if (m) { dirty = pending = true; start = p; }
        return true;
    }
    void tell(bool save)
    {
        pos_type t = b->pubseekoff(0, std::ios_base::cur, save ? std::ios_base::in : std::ios_base::out);
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "tell -> ", long(typename T::off_type(t)));
        MC_CHECK(x, (t == pos_type(-1)) == inj, "tell: result ", long(typename T::off_type(t)));
        before.reset();
        if (inj) return;
        MC_CHECK(x, long(typename T::off_type(t)) == long(p), "position is ", long(typename T::off_type(t)), ", expected ", p);
        if (save) token = std::pair(t, p);
    }
    void seek(bool use_token)
    {
        if (use_token && !token) return x.prune();
        pos_type t(0);
        if (use_token) t = token->first;
        pos_type r = b->pubseekpos(t);
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "seek ", long(typename T::off_type(t)), " -> ", long(typename T::off_type(r)));
        MC_CHECK(x, (r == pos_type(-1)) == inj && (inj || r == t), "seek: result ", long(typename T::off_type(r)));
        before.reset();
        if (!inj) { start = p = use_token ? token->second : 0; dirty = pending = false; }
    }
    void bad_seek()
    {
        using O = typename T::off_type;
        for (auto dir : { std::ios_base::beg, std::ios_base::cur, std::ios_base::end }) for (O o : { O(-1), O(0), O(1) }) {
            if (dir == std::ios_base::cur && o == 0) continue;
            MC_CHECK(x, b->pubseekoff(o, dir) == pos_type(O(-1)), "relative seeking succeeds");
        }
        std::array<C, 2> a {};
        b->pubsetbuf(a.data(), 2);
        MC_CHECK(x, !injected(), "failing relative seek accesses the file");
    }
    void sync()
    {
        int r = b->pubsync();
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "sync -> ", r);
        MC_CHECK(x, r == (inj ? -1 : 0), "sync: result ", r);
        before.reset();
        if (!inj) { dirty = pending = false; start = p; }
    }
    void imbue()
    {
        bool threw = false;
        try { b->pubimbue(utf8()); } catch (std::system_error& e) { threw = true; MC_CHECK(x, bool(e.code()), "no error code"); }
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "imbue ", threw);
        MC_CHECK(x, threw == inj, "imbue: exception ", threw);
        before.reset();
        if (!inj) { dirty = pending = false; start = p; }
    }
    void settled() { if (!dirty) MC_CHECK(x, raw() == d, "file contains ", show(raw()), ", expected ", show(d)); }
};

template<class C> std::basic_string<C> S(std::initializer_list<unsigned> l) { std::basic_string<C> s; for (unsigned c : l) s += C(c); return s; }

const std::vector<std::string>& inits(bool wide, bool windows)
{
    static const std::vector<std::string> n = { "", "ab\ncd" };
    static const std::vector<std::string> w = { "", "a\r\nb\rc", "\r\r\n\r" };
    static const std::vector<std::string> n_wide = { "", "a\xC3\xA6\n\xE2\x82\xAC" "b", "\xE2\x82\xAC" "a\xFF" "b", "\xF0\x9F\x98\x80z\xE2\x82" };
    static const std::vector<std::string> w_wide = { "", "a\xC3\xA6\r\n\xE2\x82\xAC\r", "a\r\n\xFF" "b", "\xE2\x82\xAC\r\n\xC3" };
    return wide ? windows ? w_wide : n_wide : windows ? w : n;
}

template<class I> void ops(mc::Ctx& x, int depth, bool faults)
{
    using B = core::GenericTextFileStreambuf<I>;
    using C = typename B::char_type;
    const auto& in = inits(is_wide<B>, I::has_windows_newline_codec);
    const std::string& init = in[std::size_t(x.choose(int(in.size())))];
    static const std::size_t sizes[] = { 2, 1, 3, 0, 5 };
    int s = x.choose(5);
    bool simple = !is_wide<B> && !I::has_windows_newline_codec && std::is_same_v<I, core::PosixTextFileImpl<char>>;
    int c = simple ? 0 : x.choose(x.thorough && !faults ? 3 : faults ? 1 : 2);
    Conf k { false, false, sizes[(s + c) % 5], sizes[(s * 2 + c * 2) % 5], sizes[(s * 3 + c) % 5] };
    Sys<I> y(x, k, init, sizes[s], s == 2);
    if (faults) y.fs.faults = y.fs.meta_faults = true;
    if (x.tracing) MC_TRACE(x, "contents ", show(init), " buffer ", sizes[s], " others ", k.a, " ", k.b, " ", k.c);
    for (int i = 0; i < depth; ++i) {
        int op = x.choose(18);
        if (i == 0) x.shard_point();
        switch (op) {
            case 0: y.get(1); break;
            case 1: y.getn(2); break;
            case 2: y.getn(5); break;
            case 3: y.get(0); break;
            case 4: y.get(2); break;
            case 5: y.unget(0); break;
            case 6: y.unget(1); break;
            case 7: y.unget(2); break;
            case 8: y.write(S<C>({ 'x' })); break;
            case 9: y.write(S<C>({ 'y', '\n', 'z' })); break;
            case 10: y.write(is_wide<B> ? S<C>({ 0xE6, 0x20AC, '\n', 0x1F600 }) : S<C>({ 'p', '\r', '\n', '\n', 'q', 0xFF })); break;
            case 11: y.seek(false); break;
            case 12: y.seek(true); break;
            case 13: y.tell(true); break;
            case 14: y.sync(); break;
            case 15: if (!is_wide<B>) return x.prune(); if (!y.write(S<C>({ 'v', 0xD800, 'w' }))) return; break;
            case 16: y.imbue(); break;
            case 17: y.bad_seek(); break;
        }
        if (y.over) return;
        y.settled();
        x.eval();
        x.step();
    }
    y.fs.faults = y.fs.meta_faults = false;
    y.tell(false);
    y.sync();
    y.settled();
    y.getn(3);
    x.outcome(mc::hash_str(y.d));
}

#define OPS(N, ...) \
    mc::Scenario ops_##N("operations-" #N, 400, [](mc::Ctx& x) { ops<__VA_ARGS__>(x, x.thorough ? 5 : 4, false); }); \
    mc::Scenario faults_##N("faults-" #N, 400, [](mc::Ctx& x) { ops<__VA_ARGS__>(x, x.thorough ? 4 : 3, true); });
OPS(Posix, core::PosixTextFileImpl<char>)
OPS(Windows, core::WindowsTextFileImpl<char>)
OPS(WidePosix, core::PosixTextFileImpl<wchar_t>)
OPS(WideWindows, core::WindowsTextFileImpl<wchar_t>)
OPS(BufferedPosix, core::BufferedPosixTextFileImpl<char>)
OPS(WideBufferedWindows, core::BufferedWindowsTextFileImpl<wchar_t>)

// ---- Stream level

// Formatted and unformatted operations in step with std::wstringstream / std::stringstream
template<class St> void streams(mc::Ctx& x)
{
    using C = typename St::char_type;
    fakefs::FS fs;
    fakefs::fs = &fs;
    struct R { ~R() { fakefs::fs = nullptr; } } reset;
    static const std::vector<std::string> ini = { "", "12 ab\n-7\n", "x\n\n  9" };
    const std::string init = ini[std::size_t(x.choose(3))];
    constexpr bool win = St::impl_type::has_windows_newline_codec;
    auto conv = [](const std::string& s) { std::string r; for (char c : s) { if (c == '\n' && win) r += '\r'; r += c; } return r; };
    fs.add("f", conv(init));
    int kind = x.choose(3);
    typename St::Config cfg;
    cfg.buffer_size = x.pick({ 1, 3, 4096 });
    x.shard_point();
    core::File file;
    std::optional<St> so;
    if (kind == 0) so.emplace(std::filesystem::path(path), core::File::Mode::update, cfg);
    else {
        file.open(std::filesystem::path(path), core::File::Mode::update);
        if (kind == 1) so.emplace(std::move(file), cfg);
        else so.emplace(&file, cfg);
    }
    St& s = *so;
    std::basic_stringstream<C> ref;
    std::string text = init; // ASCII
    std::size_t p = 0;
    for (int i = 0; i < (x.thorough ? 5 : 4); ++i) {
        // The reference is a string stream whose get and put positions are kept together
        std::basic_string<C> t;
        for (char c : text) t += C(c);
        std::basic_stringstream<C> r(t);
        r.seekg(std::streamoff(p)); r.seekp(std::streamoff(p));
        if (text.empty()) { r.clear(); }
        int op = x.choose(9);
        bool out = false;
        typename St::traits_type::pos_type pos(0);
        std::basic_string<C> a, b;
        long ia = -1, ib = -1;
        switch (op) {
            case 0: s >> ia; r >> ib; break;
            case 1: s >> a; r >> b; break;
            case 2: std::getline(s, a); std::getline(r, b); break;
            // Overwriting changes byte counts in Windows mode
            case 3: if (win && p != text.size()) return x.prune(); s << 314; r << 314; out = true; break;
            case 4: if (win && p != text.size()) return x.prune(); s << C('k') << std::endl; r << C('k') << std::endl; out = true; break;
            case 5: s.ignore(3); r.ignore(3); break;
            case 6: s.get(); s.unget(); r.get(); r.unget(); break;
            case 7: s.seekg(typename St::traits_type::pos_type(0)); r.seekg(0); break;
            case 8: s << std::flush; s.sync(); break;
        }
        MC_TRACE(x, "op ", op, " state ", int(s.rdstate()), " expected ", int(r.rdstate()));
        MC_CHECK(x, s.rdstate() == r.rdstate(), "op ", op, ": stream state ", int(s.rdstate()), ", expected ", int(r.rdstate()));
        MC_CHECK(x, ia == ib && a == b, "op ", op, ": wrong value extracted");
        r.clear(); s.clear();
        p = std::size_t(std::streamoff(out ? r.tellp() : r.tellg()));
        text.clear();
        for (C c : r.str()) text += char(c);
        pos = out ? s.tellp() : s.tellg();
        MC_CHECK(x, std::streamoff(pos) == std::streamoff(conv(text.substr(0, p)).size()), "op ", op, ": position ", std::streamoff(pos), ", expected ", conv(text.substr(0, p)).size());
        if (op == 4 || op == 8) MC_CHECK(x, fs.files[path]->data == conv(text), "flushing did not write everything: ", show(fs.files[path]->data));
        x.step();
    }
    s.flush();
    MC_CHECK(x, s.good() && fs.files[path]->data == conv(text), "file contains ", show(fs.files[path]->data), ", expected ", show(conv(text)));
    so.reset();
    MC_CHECK(x, file.is_open() == (kind == 2), "file closed or not closed");
}
#define STREAM(T) mc::Scenario str_##T("streams-" #T, 20, [](mc::Ctx& x) { streams<core::T>(x); });
STREAM(PosixTextFileStream) STREAM(WindowsTextFileStream) STREAM(WidePosixTextFileStream) STREAM(WideWindowsTextFileStream)

// ---- State dependent encoding
template<class St> void stateful(mc::Ctx& x, int depth)
{
    static const std::vector<std::string> ini = { "", "a\x0E" "0512\x0F" "b", "\x0E" "07" };
    const std::string& init = ini[std::size_t(x.choose(int(ini.size())))];
    fakefs::FS fs;
    fakefs::fs = &fs;
    struct R { ~R() { fakefs::fs = nullptr; } } reset;
    fs.add("f", init);
    typename St::Config cfg;
    cfg.disable_autounshift = x.choose(2);
    cfg.buffer_size = x.pick({ 1, 2, 4 });
    if constexpr (requires { cfg.impl.newline_codec_buffer_size; }) cfg.impl.newline_codec_buffer_size = x.pick({ 1, 3 });
    cfg.impl.char_codec_buffer_size = x.pick({ 3, 8 });
    x.shard_point();
    std::locale old = std::locale::global(shift());
    struct G { std::locale& l; ~G() { std::locale::global(l); } } g { old };
    core::File file(std::filesystem::path(path), core::File::Mode::update);
    St f(&file, cfg);
    std::wstring t;
    struct Tok { typename St::pos_type pos; std::size_t i; };
    std::optional<Tok> tok;
    std::size_t i = 0;
    auto decode = [&](const std::string& d, int& mode) {
        std::wstring r;
        Unit u = { ok, 0, 0, 0 };
        for (;;) {
            u = unit_at<St, true>(d, u.next, u.mode, false);
            if (u.kind != ok) break;
            r += wchar_t(u.ch);
        }
        mode = u.mode;
        MC_CHECK(x, u.kind == end, "file is malformed: ", show(d));
        return r;
    };
    int m0 = 0;
    t = decode(init, m0);
    bool dirty = false;
    int mode = m0; // Expected shift state at end of file
    bool autounshift = !cfg.disable_autounshift;
    for (int j = 0; j < depth; ++j) {
        int op = x.choose(10);
        if (dirty && autounshift && (op < 2 || op == 5 || op == 6 || op == 8)) mode = 0;
        switch (op) {
            case 0: case 1: {
                wchar_t buf[9] = {};
                std::size_t n = op == 0 ? 1 : 9;
                f.read(buf, std::streamsize(n));
                std::wstring e = t.substr(i, n);
                MC_CHECK(x, e == std::wstring(buf, std::size_t(f.gcount())), "read gives ", show(buf, std::size_t(f.gcount())), ", expected ", show(e.data(), e.size()));
                f.clear();
                i += e.size();
                dirty = false;
                break;
            }
            case 2: case 3: case 4: {
                if (i != t.size()) return x.prune();
                std::wstring w = op == 2 ? L"a" : op == 3 ? L"\x3005\x3042" : L"b\n\x3011";
                f << w;
                mode = op != 2;
                t += w;
                i = t.size();
                dirty = true;
                break;
            }
            case 5: case 6:
                if (op == 6 && !tok) return x.prune();
                f.seekg(op == 6 ? tok->pos : typename St::pos_type(0));
                i = op == 6 ? tok->i : 0;
                dirty = false;
                break;
            case 7: {
                auto pos = f.tellg();
                MC_CHECK(x, pos != typename St::pos_type(-1), "tell failed");
                tok = Tok{ pos, i };
                if (!dirty) {
                    std::size_t b = std::size_t(std::streamoff(pos));
                    const std::string& d = fs.files[path]->data;
                    MC_CHECK(x, b <= d.size(), "position beyond end of file");
                    int m;
                    std::wstring pre = decode(d.substr(0, b), m);
                    MC_CHECK(x, pre.size() == i && m == pos.state().__count, "position ", b, " follows ", pre.size(), " characters, expected ", i, " in ", show(d));
                }
                break;
            }
            case 8: f.flush(); f.sync(); dirty = false; break;
            default: if (i != t.size()) return x.prune(); f.unshift(); dirty = true; mode = 0;
        }
        if (x.tracing) MC_TRACE(x, "op ", op, " at ", i, " file ", show(fs.files[path]->data));
        MC_CHECK(x, f.good(), "op ", op, " fails");
        if (!dirty) {
            int m;
            std::wstring now = decode(fs.files[path]->data, m);
            MC_CHECK(x, now == t, "file contains text ", show(now.data(), now.size()), ", expected ", show(t.data(), t.size()));
            MC_CHECK(x, m == mode, "shift state at end of file is ", m, ", expected ", mode);
        }
        x.eval();
        x.step();
    }
    if (dirty) f.unshift();
    f.flush();
    MC_CHECK(x, f.good(), "flush failed");
    int m;
    std::wstring now = decode(fs.files[path]->data, m);
    MC_CHECK(x, now == t, "file contains text ", show(now.data(), now.size()), ", expected ", show(t.data(), t.size()));
    if (dirty) MC_CHECK(x, m == 0, "encoding not returned to initial shift state");
    x.outcome(mc::hash_str(fs.files[path]->data));
}
#define STATEFUL(T) mc::Scenario state_##T("stateful-" #T, 100, [](mc::Ctx& x) { stateful<core::T>(x, x.thorough ? 6 : 5); });

// Change of locale between reading and writing
template<class St> void imbue_change(mc::Ctx& x)
{
    fakefs::FS fs;
    fakefs::fs = &fs;
    struct R { ~R() { fakefs::fs = nullptr; } } reset;
    typename St::Config cfg;
    cfg.buffer_size = x.pick({ 1, 2, 3, 8 });
    cfg.impl.char_codec_buffer_size = x.pick({ 3, 8 });
    bool from_shift = x.choose(2);
    int how = x.choose(3); // Set initial locale through global locale, or imbue it
    std::wstring a = L"pq", b = L"r\n";
    if (x.choose(2)) a = from_shift ? L"p\x3005" : L"\xE6\x20AC";
    if (x.choose(2)) b = from_shift ? L"\x20AC" L"x" : L"\x3042" L"x";
    auto enc = [](const std::wstring& w, bool sh) {
        int m = 0;
        std::string e;
        for (wchar_t c : w) e += sh ? encode<St, true>(c, m) : encode<St, false>(c, m);
        if (m) e += '\x0F';
        return e;
    };
    std::string A = enc(a, from_shift), B = enc(b, !from_shift);
    x.shard_point();
    bool reading = x.choose(2);
    fs.add("f", reading ? A + B : "");
    std::locale l1 = from_shift ? shift() : utf8(), l2 = from_shift ? utf8() : shift();
    std::locale old = std::locale::global(how == 0 ? l1 : l2);
    struct G { std::locale& l; ~G() { std::locale::global(l); } } g { old };
    core::File file(std::filesystem::path(path), core::File::Mode::update);
    std::optional<St> s;
    s.emplace(&file, cfg);
    if (how == 1) s->imbue(l1);
    if (how == 2) s->rdbuf()->pubimbue(l1);
    for (int i = 0; i < 2; ++i) {
        const std::wstring& w = i ? b : a;
        if (i) s->imbue(l2);
        if (reading) {
            wchar_t buf[8] = {};
            s->read(buf, std::streamsize(w.size()));
            MC_CHECK(x, std::wstring(buf, std::size_t(s->gcount())) == w, "read ", show(buf, std::size_t(s->gcount())), ", expected ", show(w.data(), w.size()));
        }
        else *s << w;
        MC_CHECK(x, bool(*s), "stream failed");
    }
    s->flush();
    MC_CHECK(x, s->good() && fs.files[path]->data == A + B, "file contains ", show(fs.files[path]->data), ", expected ", show(A + B));
    x.eval();
}
mc::Scenario imbue_p("imbue-Posix", 20, [](mc::Ctx& x) { imbue_change<core::WidePosixTextFileStream>(x); });

STATEFUL(WidePosixTextFileStream) STATEFUL(WideWindowsTextFileStream)

} // unnamed namespace
