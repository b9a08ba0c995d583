// C10: text files (core/text_file.hpp, core/buffered_text_file.hpp) against an ideal text file:
// a byte array and one position, characters decoded and encoded one at a time.
#include "C10_ideal.hpp"

namespace {

using namespace txt;

const char* const path = "/mcfake/f";

template<class F> struct Sys {
    using C = typename F::char_type;
    using str_t = std::basic_string<C>;
    mc::Ctx& x;
    fakefs::FS fs;
    Conf k;
    typename F::Config cfg;
    std::unique_ptr<F> f;
    std::string d;       // ideal contents
    std::size_t p = 0;   // ideal position
    bool dirty = false;
    std::optional<std::pair<typename F::pos_type, std::size_t>> token;

    Sys(mc::Ctx& x_, const Conf& k_, std::string init) : x(x_), k(k_), d(init)
    {
        fakefs::fs = &fs;
        fs.add("f", init);
        configure<F>(cfg, k);
        f = std::make_unique<F>(utf8(), cfg);
        open();
    }
    ~Sys() { f.reset(); fakefs::fs = nullptr; }
    std::string& raw() { return fs.files[path]->data; }

    void open()
    {
        std::error_code ec;
        bool r = f->try_open(std::filesystem::path(path), core::File::Mode::update, ec);
        MC_CHECK(x, r && f->is_open(), "file could not be opened");
        p = 0;
    }

    // What reading of up to max characters must deliver; n_exact < 0 if error after got
    struct Exp { str_t text; std::vector<std::size_t> pos; Kind why = ok; };
    Exp expect(std::size_t max)
    {
        Exp e;
        std::size_t q = p;
        e.pos.push_back(q);
        while (e.text.size() < max) {
            Unit u = unit_at<F, false>(d, q, 0, k.dynamic);
            if (u.kind != ok) { e.why = u.kind; return e; }
            q = u.next;
            e.text += C(u.ch);
            e.pos.push_back(q);
        }
        return e;
    }
    bool failing(const Exp& e) { return e.why == invalid || (e.why == incomplete && !k.dynamic); }

    // Carry out reading of `n` characters delivered as `got`
    void took(const Exp& e, const C* got, std::size_t n, const char* what)
    {
        MC_CHECK(x, n <= e.text.size() && std::equal(got, got + n, e.text.data()), what, " delivers ", show(got, n), ", but next characters in file are ", show(e.text.data(), e.text.size()));
        p = e.pos[n];
    }
    int errs = 0;
    bool injected() { bool r = fs.num_err != errs; errs = fs.num_err; return r; }

    void read(std::size_t n)
    {
        std::vector<C> buf(n + 2, C('#'));
        Exp e = expect(n);
        std::size_t m = 77;
        std::error_code ec;
        bool r = f->try_read(core::Span<C>(buf.data(), n), m, ec);
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "read ", n, " -> ", r, " ", m, " ", show(buf.data(), std::min(m, n)), " ", ec.message());
        MC_CHECK(x, m <= n, "read of ", n, " characters reports ", m);
        MC_CHECK(x, buf[n] == C('#') && buf[n + 1] == C('#'), "buffer exceeded");
        took(e, buf.data(), m, "read");
        if (r) {
            MC_CHECK(x, !inj, "system error not reported");
            MC_CHECK(x, m == e.text.size() && (m == n || !failing(e)), "read of ", n, " characters delivers ", m, ", expected ", e.text.size(), (failing(e) ? " and failure" : ""));
            dirty = false;
        }
        else {
            if (!inj) {
                MC_CHECK(x, m < n && failing(e) && m == e.text.size(), "read of ", n, " characters fails after ", m, " (", ec.message(), "), expected ", e.text.size(), (failing(e) ? " and failure" : ""));
                MC_CHECK(x, ec == core::TextFileError::invalid_byte_seq, "wrong error: ", ec.message());
                dirty = false;
            }
            else MC_CHECK(x, bool(ec), "no error code");
        }
    }
    void read_some(std::size_t n)
    {
        std::vector<C> buf(n + 2, C('#'));
        Exp e = expect(n);
        std::size_t m = 0;
        std::error_code ec;
        bool r = f->try_read_some(core::Span<C>(buf.data(), n), m, ec);
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "read_some ", n, " -> ", r, " ", m, " ", show(buf.data(), std::min(m, n)), " ", ec.message());
        if (r) {
            MC_CHECK(x, !inj, "system error not reported");
            MC_CHECK(x, m <= n && buf[n] == C('#'), "buffer exceeded");
            took(e, buf.data(), m, "read_some");
            MC_CHECK(x, m > 0 || n == 0 || (e.text.empty() && !failing(e)), "read_some reports end of file, but expected ", show(e.text.data(), e.text.size()));
            dirty = false;
        }
        else if (!inj) {
            MC_CHECK(x, n > 0 && e.text.empty() && failing(e), "read_some fails (", ec.message(), "), expected ", show(e.text.data(), e.text.size()));
            MC_CHECK(x, ec == core::TextFileError::invalid_byte_seq, "wrong error: ", ec.message());
            dirty = false;
        }
    }
    void read_all()
    {
        Exp e = expect(1000000);
        std::error_code ec;
        core::Buffer<C> buf;
        std::size_t off = 0;
        bool r = f->try_read_all(buf, off, ec);
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "read_all -> ", r, " ", show(buf.data(), off), " ", ec.message());
        took(e, buf.data(), off, "read_all");
        if (r) {
            MC_CHECK(x, !inj, "system error not reported");
            MC_CHECK(x, off == e.text.size() && !failing(e), "read_all delivers ", off, " characters, expected ", e.text.size(), (failing(e) ? " and failure" : ""));
            dirty = false;
        }
        else if (!inj) {
            MC_CHECK(x, off == e.text.size() && failing(e), "read_all fails after ", off, " characters, expected ", e.text.size(), (failing(e) ? " and failure" : ""));
            dirty = false;
        }
    }
    bool read_line()
    {
        if constexpr (is_buffered<F>) {
            Exp e = expect(1000000);
            core::Buffer<C> buf;
            std::basic_string_view<C> line;
            bool found = false;
            std::error_code ec;
            bool r = f->try_read_line(buf, line, found, ec);
            bool inj = injected();
            if (x.tracing) MC_TRACE(x, "read_line -> ", r, " ", found, " ", show(line.data(), line.size()), " ", ec.message());
            std::size_t i = e.text.find(C('\n'));
            bool nl = i != str_t::npos;
            if (r) {
                MC_CHECK(x, !inj, "system error not reported");
                std::size_t n = nl ? i : e.text.size();
                MC_CHECK(x, nl || !failing(e), "read_line succeeds, expected failure");
                MC_CHECK(x, line == e.text.substr(0, n), "read_line gives ", show(line.data(), line.size()), ", expected ", show(e.text.data(), n));
                MC_CHECK(x, found == (nl || n > 0), "read_line reports found=", found);
                p = e.pos[n + nl];
                dirty = false;
                return true;
            }
            if (!inj) MC_CHECK(x, !nl && failing(e), "read_line fails (", ec.message(), ") on ", show(e.text.data(), e.text.size()));
        }
        return false; // Amount consumed is unspecified
    }
    void put(const std::string& bytes)
    {
        if (d.size() < p + bytes.size()) d.resize(p + bytes.size());
        d.replace(p, bytes.size(), bytes);
        p += bytes.size();
    }
    bool write(const str_t& s, bool line = false)
    {
        std::size_t enc = 0;
        std::vector<std::string> parts;
        for (; enc < s.size(); ++enc) {
            int m = 0;
            parts.push_back(encode<F, false>(s[enc], m));
            if (parts.back().empty()) break;
        }
        bool bad = enc < s.size();
        std::size_t m = 77;
        std::error_code ec;
        bool r = false;
        if (!line) r = f->try_write(s, m, ec);
        else if constexpr (is_buffered<F>) { r = f->try_write_line(str_t(s.data(), s.size() - 1), ec); m = s.size(); }
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "write ", show(s.data(), s.size()), " -> ", r, " ", m, " ", ec.message());
        if (r) {
            MC_CHECK(x, !inj, "system error not reported");
            MC_CHECK(x, m == s.size(), "write of ", s.size(), " characters reports ", m);
            MC_CHECK(x, !bad || is_buffered<F>, "unencodable character accepted");
        }
        else if (inj) {
            MC_CHECK(x, bool(ec), "no error code");
            if (line) return false;
            MC_CHECK(x, m <= s.size(), "failed write of ", s.size(), " characters reports ", m);
        }
        else {
            MC_CHECK(x, bad, "write fails: ", ec.message());
            MC_CHECK(x, ec == core::TextFileError::invalid_char, "wrong error: ", ec.message());
            MC_CHECK(x, m <= s.size() && (is_buffered<F> || m == enc), "write of ", show(s.data(), s.size()), " fails after ", m, " characters, expected ", enc);
        }
        std::string all;
        for (std::size_t i = 0; i < std::min(m, enc); ++i) all += parts[i];
        put(all);
        if (!all.empty()) dirty = true;
        if (bad && is_buffered<F>) { // Surfaces no later than when flushing
            if (r) {
                r = f->try_flush(ec);
                if (injected()) return false;
                MC_CHECK(x, !r && ec == core::TextFileError::invalid_char, "unencodable character goes unnoticed");
            }
            else if (inj) return false;
            else static_cast<void>(f->try_flush(ec));
            if (injected()) return false;
            std::string pre; // Everything up to the failure
            for (std::size_t i = std::min(m, enc); i < enc; ++i) pre += parts[i];
            put(pre);
            MC_CHECK(x, raw() == d, "after failure to encode, file contains ", show(raw()), ", expected ", show(d));
            return false;
        }
        return true;
    }
    void seek(bool use_token)
    {
        if (use_token && !token) return x.prune();
        std::error_code ec;
        typename F::pos_type t(0);
        if (use_token) t = token->first;
        bool r = f->try_seek(t, ec);
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "seek ", long(typename F::traits_type::off_type(t)), " -> ", r, " ", ec.message());
        MC_CHECK(x, r == !inj, "seek: result ", r, " (", ec.message(), ")");
        if (r) { p = use_token ? token->second : 0; dirty = false; }
    }
    void tell(bool save)
    {
        std::error_code ec;
        typename F::pos_type t(-5);
        bool r = f->try_tell(t, ec);
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, "tell -> ", r, " ", long(typename F::traits_type::off_type(t)), " ", ec.message());
        MC_CHECK(x, r == !inj, "tell: result ", r, " (", ec.message(), ")");
        if (!r) return;
        MC_CHECK(x, long(typename F::traits_type::off_type(t)) == long(p), "position is ", long(typename F::traits_type::off_type(t)), ", expected ", p);
        if (save) token = std::pair(t, p);
    }
    void flush(bool unshift = false)
    {
        std::error_code ec;
        bool r = unshift ? f->try_unshift(ec) : f->try_flush(ec);
        bool inj = injected();
        if (x.tracing) MC_TRACE(x, unshift ? "unshift" : "flush", " -> ", r, " ", ec.message());
        MC_CHECK(x, r == !inj, "flush: result ", r, " (", ec.message(), ")");
        if (r && !unshift) dirty = false;
    }
    void settled()
    {
        if (!dirty) MC_CHECK(x, raw() == d, "file contains ", show(raw()), ", expected ", show(d));
    }
};

template<class C> std::basic_string<C> S(std::initializer_list<unsigned> l) { std::basic_string<C> s; for (unsigned c : l) s += C(c); return s; }

const std::vector<std::string>& inits(bool wide, bool windows)
{
    static const std::vector<std::string> n = { "", "ab\ncd", "a\n\nb" };
    static const std::vector<std::string> w = { "", "a\r\nb\rc", "\r\r\n\r", "\r\n\r\nx", "ab\r" };
    static const std::vector<std::string> n_wide = { "", "a\xC3\xA6\n\xE2\x82\xAC" "b", "\xE2\x82\xAC\xC3", "a\xFF" "b", "\xF0\x9F\x98\x80z\xE2\x82" };
    static const std::vector<std::string> w_wide = { "", "a\xC3\xA6\r\n\xE2\x82\xAC\r", "\r\n\xC3", "a\r\xFF" "b", "\xE2\x82\xAC\r\n\r" };
    return wide ? windows ? w_wide : n_wide : windows ? w : n;
}
const std::vector<Conf>& confs(bool buffered, bool wide, bool windows)
{
    auto make = [&] {
        std::vector<Conf> r;
        std::vector<std::size_t> s = { 0, 1, 2, 3, 5 };
        for (bool dyn : { false, true })
            for (std::size_t i = 0; i < 5; ++i) {
                // Each kind of buffer takes all sizes, in different combinations
                for (std::size_t j = 0; j < 2; ++j) {
                    if (j && !(int(buffered) + int(wide) + int(windows) >= 2)) continue;
                    if (!buffered && !wide && !windows && i) continue;
                    r.push_back(Conf{ dyn, false, s[i], s[(i * 2 + j * 3) % 5], s[(i * 3 + 1 + j * 2) % 5] });
                }
            }
        return r;
    };
    static std::map<int, std::vector<Conf>> m;
    auto& v = m[buffered * 4 + wide * 2 + windows];
    if (v.empty()) v = make();
    return v;
}

template<class F> void ops(mc::Ctx& x, int depth, bool faults)
{
    using C = typename F::char_type;
    const auto& in = inits(is_wide<F>, is_windows<F>);
    const auto& cs = confs(is_buffered<F>, is_wide<F>, is_windows<F>);
    const std::string& init = in[std::size_t(x.choose(int(in.size())))];
    const Conf& k = cs[std::size_t(x.choose(int(cs.size())))];
    x.shard_point();
    Sys<F> s(x, k, init);
    if (faults) s.fs.faults = s.fs.meta_faults = true;
    if (x.tracing) MC_TRACE(x, "contents ", show(init), " dynamic=", k.dynamic, " buffers ", k.a, " ", k.b, " ", k.c);
    for (int i = 0; i < depth; ++i) {
        int op = x.choose(17);
        switch (op) {
            case 0: s.read(1); break;
            case 1: s.read(2); break;
            case 2: s.read(5); break;
            case 3: s.read_some(3); break;
            case 4: s.read_all(); break;
            case 5: s.write(S<C>({ 'x' })); break;
            case 6: s.write(S<C>({ 'y', '\n', 'z' })); break;
            case 7: s.write(is_wide<F> ? S<C>({ 0xE6, 0x20AC, '\n', 0x1F600 }) : S<C>({ 'p', '\r', '\n', '\n', 'q', 0xFF })); break;
            case 8: s.seek(false); break;
            case 9: s.seek(true); break;
            case 10: s.tell(true); break;
            case 11: s.flush(); break;
            case 12: if (!is_wide<F>) return x.prune(); if (!s.write(S<C>({ 'v', 0xD800, 'w' }))) return; break;
            case 13: if (!is_buffered<F>) return x.prune(); if (!s.read_line()) return; break;
            case 14: if (!is_buffered<F>) return x.prune(); if (!s.write(S<C>({ 'l', '\n' }), true)) return; break;
            case 15:
                if (!k.dynamic || s.dirty || faults) return x.prune();
                s.raw() += is_wide<F> ? "\xA9\n" : "\nA";
                s.d += is_wide<F> ? "\xA9\n" : "\nA";
                break;
            case 16: {
                if (faults) return x.prune();
                s.flush();
                s.f->close();
                MC_CHECK(x, !s.f->is_open(), "file is open after having been closed");
                s.open();
                break;
            }
        }
        s.settled();
        x.eval();
        x.step();
    }
    s.fs.faults = s.fs.meta_faults = false;
    s.tell(false);
    s.flush();
    s.settled();
    s.read(3);
    x.outcome(mc::hash_str(s.d));
}

#define FILES(X) X(PosixTextFile) X(WindowsTextFile) X(WidePosixTextFile) X(WideWindowsTextFile) \
    X(BufferedPosixTextFile) X(BufferedWindowsTextFile) X(WideBufferedPosixTextFile) X(WideBufferedWindowsTextFile)
#define OPS(T) \
    mc::Scenario ops_##T("operations-" #T, 200, [](mc::Ctx& x) { ops<core::T>(x, x.thorough ? 4 : 3, false); }); \
    mc::Scenario faults_##T("faults-" #T, 200, [](mc::Ctx& x) { ops<core::T>(x, x.thorough ? 3 : 2, true); });
FILES(OPS)

// ---- Loading and saving

template<class F> void load_save(mc::Ctx& x)
{
    using C = typename F::char_type;
    using str_t = std::basic_string<C>;
    fakefs::FS fs;
    fakefs::fs = &fs;
    struct R { ~R() { fakefs::fs = nullptr; } } reset;
    std::size_t n = x.pick({ 0, 1, 2, 253, 254, 255, 256, 257, 511, 512, 767, 768, 4092, 4093, 4094, 4095, 4096, 4097, 8191, 8192 });
    x.shard_point();
    str_t fill;
    for (std::size_t i = 0; i < n; ++i) fill += C("abcdefghijklm\n"[i % 14]);
    if (x.choose(2) == 0) { // save, load
        static const std::vector<std::vector<unsigned>> tails = { {}, { '\n' }, { '\n', '\n' }, { 0xE6 }, { 0x20AC, '\n' }, { 0x1F600, 'x', '\n' }, { '\r' }, { 'x', '\r', '\n' }, { '\n', 'a' }, { 0xD800 }, { 'a', 0xDC00, 'b', '\n' }, { 0 } };
        str_t t = fill;
        for (unsigned c : tails[std::size_t(x.choose(int(tails.size())))]) { if (!is_wide<F> && c > 0xFF) return x.prune(); t += C(c); }
        std::string bytes;
        bool bad = false;
        for (C c : t) { int m = 0; std::string e = encode<F, false>(c, m); if (e.empty()) { bad = true; break; } bytes += e; }
        bool exists = x.choose(2);
        if (exists) fs.add("f", std::string(n + 20, 'Q'));
        std::error_code ec;
        bool r = F::try_save(std::filesystem::path(path), t, ec, utf8());
        x.eval();
        MC_CHECK(x, r == !bad, "saving of ", t.size(), " characters: result ", r);
        if (bad) { MC_CHECK(x, ec == core::TextFileError::invalid_char, "wrong error"); return; }
        MC_CHECK(x, fs.files[path]->data == bytes, "saved file contains ", show(fs.files[path]->data), ", expected ", show(bytes));
        MC_CHECK(x, fs.open_count() == 0, "file left open");
    }
    else {
        static const std::vector<std::string> tails = { "", "\n", "\r\n", "\r", "\n\n", "\r\r\n", "\xC3\xA6", "\xE2\x82\xAC\r\n", "\xC3", "\xF0\x9F\x98", "\xFF" "abc\n", "\xE2\x82\r\n", "a\r", "\xF0\x9F\x98\x80" };
        std::string d;
        for (C c : fill) d += char(c);
        d += tails[std::size_t(x.choose(int(tails.size())))];
        fs.add("f", d);
        Sys<F>* none = nullptr;
        static_cast<void>(none);
        str_t exp;
        Unit u = { end, 0, 0, 0 };
        for (std::size_t p = 0; ; p = u.next) { u = unit_at<F, false>(d, p, 0, false); if (u.kind != ok) break; exp += C(u.ch); }
        bool bad = u.kind != end;
        bool chomp = x.choose(2);
        std::size_t off0 = x.pick({ 0, 2 });
        core::Buffer<C> buf(x.pick({ 2, 300 }));
        for (std::size_t i = 0; i < off0; ++i) buf.data()[i] = C('\n');
        std::size_t off = off0;
        std::error_code ec;
        bool r = chomp ? F::try_load_and_chomp(std::filesystem::path(path), buf, off, ec, utf8()) : F::try_load(std::filesystem::path(path), buf, off, ec, utf8());
        x.eval();
        MC_CHECK(x, r == !bad, "loading ", show(d), ": result ", r, " ", ec.message());
        MC_CHECK(x, fs.open_count() == 0, "file left open");
        if (bad) MC_CHECK(x, ec == core::TextFileError::invalid_byte_seq, "wrong error");
        str_t want = exp;
        if (chomp && !bad && !want.empty() && want.back() == C('\n')) want.pop_back();
        if (bad && chomp) return;
        MC_CHECK(x, off >= off0 && off <= buf.size(), "bad offset");
        for (std::size_t i = 0; i < off0; ++i) MC_CHECK(x, buf.data()[i] == C('\n'), "earlier part of buffer modified");
        str_t got(buf.data() + off0, off - off0);
        MC_CHECK(x, got == want, (chomp ? "load_and_chomp" : "load"), " of file containing ", show(d), " gives ", show(got.data(), got.size()), ", expected ", show(want.data(), want.size()));
        if (!bad) {
            str_t g2 = chomp ? F::load_and_chomp(std::filesystem::path(path), utf8()) : F::load(std::filesystem::path(path), utf8());
            MC_CHECK(x, g2 == want, "throwing variant gives ", show(g2.data(), g2.size()));
        }
        else {
            bool thrown = false;
            try { F::load(std::filesystem::path(path), utf8()); } catch (const std::system_error& e) { thrown = e.code() == core::TextFileError::invalid_byte_seq; }
            MC_CHECK(x, thrown, "throwing variant does not fail");
        }
    }
}

// ---- State dependent encoding: text is extended at its end, and read from any position

template<class F> void stateful(mc::Ctx& x, int depth)
{
    using C = typename F::char_type;
    static const std::vector<std::string> ini = { "", "a\x0E" "0512\x0F" "b", "\x0E" "07", "\x0E\x0F\x0E" "11\n\x0F" };
    const std::string& init = ini[std::size_t(x.choose(int(ini.size())))];
    const auto& cs = confs(is_buffered<F>, true, is_windows<F>);
    Conf k = cs[std::size_t(x.choose(int(cs.size())))];
    if (k.dynamic) return x.prune();
    k.no_autounshift = x.choose(2);
    x.shard_point();
    fakefs::FS fs;
    fakefs::fs = &fs;
    struct R { ~R() { fakefs::fs = nullptr; } } reset;
    fs.add("f", init);
    typename F::Config cfg;
    configure<F>(cfg, k);
    F f(shift(), cfg);
    f.open(std::filesystem::path(path), core::File::Mode::update);
    if (x.tracing) MC_TRACE(x, "contents ", show(init), " no_autounshift=", k.no_autounshift, " buffers ", k.a, " ", k.b, " ", k.c);
    std::wstring t;
    struct Tok { typename F::pos_type pos; std::size_t i; };
    std::optional<Tok> tok;
    std::size_t i = 0;
    auto decode = [&](const std::string& d, int& mode) {
        std::wstring r;
        Unit u = { ok, 0, 0, 0 };
        for (;;) {
            u = unit_at<F, true>(d, u.next, u.mode, false);
            if (u.kind != ok) break;
            r += wchar_t(u.ch);
        }
        mode = u.mode;
        MC_CHECK(x, u.kind == end, "file is malformed: ", show(d));
        return r;
    };
    int m0 = 0;
    t = decode(init, m0);
    bool dirty = false;
    for (int j = 0; j < depth; ++j) {
        std::error_code ec;
        int op = x.choose(11);
        switch (op) {
            case 0: case 1: case 2: {
                std::size_t n = op == 0 ? 1 : op == 1 ? 2 : 9;
                C buf[9] = {};
                std::size_t m = 77;
                bool r = f.try_read(core::Span<C>(buf, n), m, ec);
                MC_CHECK(x, r && m <= n, "read failed");
                std::wstring e = t.substr(i, n);
                MC_CHECK(x, e == std::wstring(buf, m), "read gives ", show(buf, m), ", expected ", show(e.data(), e.size()));
                i += m;
                dirty = false;
                break;
            }
            case 3: case 4: case 5: {
                if (i != t.size()) return x.prune();
                std::wstring w = op == 3 ? L"a" : op == 4 ? L"\x3005\x3042" : L"b\n\x3011";
                std::size_t m = 77;
                bool r = f.try_write(w, m, ec);
                MC_CHECK(x, r && m == w.size(), "write failed");
                t += w;
                i = t.size();
                dirty = true;
                break;
            }
            case 6: case 7: {
                if (op == 7 && !tok) return x.prune();
                bool r = f.try_seek(op == 7 ? tok->pos : typename F::pos_type(0), ec);
                MC_CHECK(x, r, "seek failed");
                i = op == 7 ? tok->i : 0;
                dirty = false;
                break;
            }
            case 8: {
                typename F::pos_type pos(-5);
                bool r = f.try_tell(pos, ec);
                MC_CHECK(x, r, "tell failed");
                tok = Tok{ pos, i };
                if (!dirty) {
                    std::size_t b = std::size_t(typename F::traits_type::off_type(pos));
                    const std::string& d = fs.files[path]->data;
                    MC_CHECK(x, b <= d.size(), "position beyond end of file");
                    int m;
                    std::wstring pre = decode(d.substr(0, b), m);
                    MC_CHECK(x, pre.size() == i, "position ", b, " follows ", pre.size(), " characters, expected ", i, " in ", show(d));
                    MC_CHECK(x, m == pos.state().__count, "position ", b, " has wrong shift state in ", show(d));
                }
                break;
            }
            case 9: MC_CHECK(x, f.try_flush(ec), "flush failed"); dirty = false; break;
            case 10: if (i != t.size()) return x.prune(); MC_CHECK(x, f.try_unshift(ec), "unshift failed"); dirty = true; break;
        }
        if (x.tracing) MC_TRACE(x, "op ", op, " at ", i, " file ", show(fs.files[path]->data));
        if (!dirty) {
            int m;
            std::wstring now = decode(fs.files[path]->data, m);
            MC_CHECK(x, now == t, "file contains text ", show(now.data(), now.size()), ", expected ", show(t.data(), t.size()));
        }
        x.eval();
        x.step();
    }
    std::error_code ec;
    if (dirty) f.unshift();
    MC_CHECK(x, f.try_flush(ec), "flush failed");
    int m;
    std::wstring now = decode(fs.files[path]->data, m);
    MC_CHECK(x, now == t, "file contains text ", show(now.data(), now.size()), ", expected ", show(t.data(), t.size()));
    if (dirty) MC_CHECK(x, m == 0, "encoding not returned to initial shift state");
    x.outcome(mc::hash_str(fs.files[path]->data));
}

#define LOAD(T) mc::Scenario load_##T("load-save-" #T, 20, [](mc::Ctx& x) { load_save<core::T>(x); });
FILES(LOAD)
#define STATEFUL(T) mc::Scenario state_##T("stateful-" #T, 100, [](mc::Ctx& x) { stateful<core::T>(x, x.thorough ? 6 : 4); });
STATEFUL(WidePosixTextFile) STATEFUL(WideWindowsTextFile) STATEFUL(WideBufferedPosixTextFile) STATEFUL(WideBufferedWindowsTextFile)

} // unnamed namespace
