// C12: files against an ideal file under all patterns of short transfers, interruptions and errors.
#include "fakefs.hpp"
#include <optional>
#include <system_error>
#include <archon/core/assert.hpp>
#include <archon/core/filesystem.hpp>
#include <archon/core/file.hpp>

using namespace archon;
using core::File;

namespace {

struct Env {
    fakefs::FS fs;
    Env() { fakefs::fs = &fs; }
    ~Env() { fakefs::fs = nullptr; }
};

const std::error_code untouched(12345, std::generic_category());

void leak_check(mc::Ctx& x, Env& e)
{
    for (auto& d : e.fs.descs) MC_CHECK(x, !d.open && d.closed == 1, "descriptor closed ", d.closed, " times");
}

core::FilesystemPathRef P(const std::filesystem::path& p) { return p; }

// --- Reading and writing ------------------------------------------------------------------

void io_2(mc::Ctx& x, int nops)
{
    Env e;
    auto ino = e.fs.add("f", std::string("abcdefgh").substr(0, std::size_t(x.pick({0, 1, 5}))));
    int mode = x.choose(4);
    std::string model = ino->data;
    std::size_t pos = 0;
    char next = 'A';
    static const std::filesystem::path path = "/mcfake/f";
    {
        File f(path, File::Mode(mode));
        if (mode == 2) model.clear();
        MC_CHECK(x, ino->data == model);
        for (int i = 0; i < nops; ++i) {
            int op = x.choose(8);
            if (i == 1) x.shard_point();
            e.fs.reset();
            e.fs.faults = true;
            std::error_code ec = untouched;
            std::size_t n = 777;
            auto err = [&](std::error_code c) { return c == std::error_code(e.fs.err, std::system_category()) || c == std::error_code(e.fs.err, std::generic_category()); };
            auto after_read = [&](std::string_view b, std::size_t m) {
                MC_CHECK(x, m == e.fs.got, "n = ", m, " but system delivered ", e.fs.got);
                MC_CHECK(x, m <= b.size());
                MC_CHECK(x, b.substr(0, m) == std::string_view(model).substr(std::min(pos, model.size()), m), mc::esc(b));
                pos += m;
            };
            auto ideal_write = [&](std::string_view d) {
                if (d.empty()) return;
                if (mode == 3) pos = model.size();
                if (model.size() < pos + d.size()) model.resize(pos + d.size());
                model.replace(pos, d.size(), d);
                pos += d.size();
            };
            auto after_write = [&](std::string_view d, std::size_t m) {
                MC_CHECK(x, m == e.fs.put, "n = ", m, " but system took ", e.fs.put);
                ideal_write(d.substr(0, m));
                MC_CHECK(x, ino->data == model, mc::esc(ino->data), " expected ", mc::esc(model));
            };
            switch (op) {
                case 0: case 1: { // try_read / read
                    std::size_t k = std::size_t((x.thorough ? x.pick({0, 1, 2, 3, 7}) : x.pick({0, 2, 7})));
                    std::string b(k, '.');
                    std::size_t rem = pos < model.size() ? model.size() - pos : 0;
                    bool ok;
                    if (op == 0) ok = f.try_read(core::Span<char>(b.data(), k), n, ec);
                    else {
                        ok = true;
                        try { n = f.read(core::Span<char>(b.data(), k)); }
                        catch (std::system_error& s) { ok = false; ec = s.code(); }
                    }
                    MC_TRACE(x, (op ? "read " : "try_read "), k, " -> ", ok, " n=", n);
                    MC_CHECK(x, ok == (e.fs.num_err == 0), "reported ", ok);
                    if (ok) {
                        MC_CHECK(x, n == std::min(k, rem), "n = ", n, " of ", rem);
                        MC_CHECK(x, ec == untouched, "error code touched on success");
                    }
                    else {
                        MC_CHECK(x, err(ec), ec.message());
                        if (op == 1) { after_read(b, e.fs.got); break; }
                        MC_CHECK(x, n < k || k == 0);
                    }
                    after_read(b, n);
                    break;
                }
                case 2: case 3: { // read some
                    std::size_t k = std::size_t(x.pick({0, 1, 3}));
                    std::string b(k, '.');
                    std::size_t rem = pos < model.size() ? model.size() - pos : 0;
                    bool ok, intr = false;
                    if (op == 2) ok = f.try_read_some(core::Span<char>(b.data(), k), n, ec);
                    else {
                        intr = x.choose(2);
                        bool intr0 = intr;
                        ok = f.try_read_some_a(core::Span<char>(b.data(), k), n, intr, ec);
                        if (ok) MC_CHECK(x, intr == intr0, "flag touched");
                        else MC_CHECK(x, intr == (e.fs.eintr > 0), "interruption not reported");
                        if (!ok && intr) {
                            MC_CHECK(x, n == 777 && ec == untouched && e.fs.got == 0 && e.fs.num_err == 0);
                            break;
                        }
                    }
                    MC_TRACE(x, "read_some ", k, " -> ", ok, " n=", n);
                    MC_CHECK(x, ok == (e.fs.num_err == 0));
                    if (ok) {
                        MC_CHECK(x, (n > 0) == (std::min(k, rem) > 0), "n = ", n);
                        MC_CHECK(x, ec == untouched);
                        after_read(b, n);
                    }
                    else MC_CHECK(x, n == 777 && err(ec) && e.fs.got == 0);
                    break;
                }
                case 4: case 5: { // write
                    std::size_t k = std::size_t((x.thorough ? x.pick({0, 1, 2, 4}) : x.pick({0, 1, 4})));
                    std::string d;
                    for (std::size_t j = 0; j < k; ++j) d += next++;
                    bool ok;
                    if (op == 4) ok = f.try_write(d, n, ec);
                    else {
                        ok = true;
                        try { f.write(d); }
                        catch (std::system_error& s) { ok = false; ec = s.code(); }
                        n = e.fs.put;
                    }
                    MC_TRACE(x, "write ", k, " -> ", ok, " n=", n);
                    MC_CHECK(x, ok == (e.fs.num_err == 0));
                    if (ok) MC_CHECK(x, n == k && ec == untouched);
                    else MC_CHECK(x, (n < k || k == 0) && err(ec));
                    after_write(d, n);
                    break;
                }
                case 6: { // write some
                    std::size_t k = std::size_t(x.pick({0, 1, 3}));
                    std::string d;
                    for (std::size_t j = 0; j < k; ++j) d += next++;
                    bool ok, intr = false, a = x.choose(2);
                    if (!a) ok = f.try_write_some(d, n, ec);
                    else {
                        ok = f.try_write_some_a(d, n, intr, ec);
                        if (!ok) MC_CHECK(x, intr == (e.fs.eintr > 0));
                        if (!ok && intr) {
                            MC_CHECK(x, n == 777 && ec == untouched && e.fs.put == 0);
                            break;
                        }
                    }
                    MC_TRACE(x, "write_some ", k, " -> ", ok, " n=", n);
                    MC_CHECK(x, ok == (e.fs.num_err == 0));
                    if (ok) {
                        MC_CHECK(x, (n > 0) == (k > 0) && ec == untouched);
                        after_write(d, n);
                    }
                    else MC_CHECK(x, n == 777 && err(ec) && e.fs.put == 0);
                    break;
                }
                case 7: { // seek
                    e.fs.faults = false;
                    e.fs.meta_faults = true;
                    int w = x.choose(3);
                    File::offset_type off = x.pick({0, 2, -1});
                    File::offset_type b = w == 0 ? 0 : w == 1 ? File::offset_type(pos) : File::offset_type(model.size());
                    File::offset_type res = 777;
                    int how = w == 0 && off == 0 ? x.choose(3) : i % 2;
                    bool ok = true;
                    if (how == 0) ok = f.try_seek(off, File::Whence(w), res, ec);
                    else {
                        try {
                            if (how == 2) {
                                res = f.tell();
                                b = File::offset_type(pos);
                                off = 0;
                            }
                            else res = f.seek(off, File::Whence(w));
                        }
                        catch (std::system_error& s) { ok = false; ec = s.code(); }
                    }
                    e.fs.meta_faults = false;
                    MC_CHECK(x, ok == (e.fs.num_err == 0));
                    if (ok) {
                        MC_CHECK(x, res == b + off && ec == untouched, "seek result ", res);
                        pos = std::size_t(b + off);
                    }
                    else MC_CHECK(x, err(ec));
                    break;
                }
            }
            x.step();
            x.state(mc::mix(mc::hash_str(model, pos), n));
        }
    }
    leak_check(x, e);
}
void io(mc::Ctx& x) { io_2(x, x.thorough ? 4 : 3); }
mc::Scenario s_io("io", 64, io);

// Fewer operations, more deviations
void io_deep(mc::Ctx& x)
{
    struct Bound {
        mc::Ctx& x;
        int old = x.dev_bound;
        ~Bound() { x.dev_bound = old; }
    } bound { x };
    x.dev_bound = x.thorough ? 6 : 4;
    io_2(x, 2);
}
mc::Scenario s_io_deep("io_deep", 64, io_deep);

// --- Whole files -----------------------------------------------------------------------------

void whole(mc::Ctx& x)
{
    Env e;
    static const int sizes[] = { 0, 1, 2, 255, 256, 257, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 2000, 5000 };
    std::size_t size = std::size_t(x.pick(sizes));
    x.shard_point();
    std::string data(size, 0);
    for (std::size_t i = 0; i < size; ++i) data[i] = char(i * 7 + i / 256);
    bool exists = x.choose(2);
    static const std::filesystem::path path = "/mcfake/f";
    int op = x.choose(6);
    std::shared_ptr<fakefs::Inode> ino;
    if (exists) ino = e.fs.add("f", op < 2 ? data : std::string("previous contents"));
    bool dir = exists && x.choose(2);
    if (dir) ino->dir = true;
    e.fs.faults = true;
    e.fs.meta_faults = true;
    std::error_code ec = untouched;
    bool ok = true;
    std::string loaded = "keep";
    std::filesystem::path got_path;
    switch (op) {
        case 0: ok = File::try_load(path, loaded, ec); break;
        case 1: try { loaded = File::load(path); } catch (std::filesystem::filesystem_error& s) { ok = false; ec = s.code(); got_path = s.path1(); } break;
        case 2: ok = File::try_save(path, data, ec); break;
        case 3: try { File::save(path, data); } catch (std::filesystem::filesystem_error& s) { ok = false; ec = s.code(); got_path = s.path1(); } break;
        case 4: ok = File::try_touch(path, ec); break;
        case 5: try { File::touch(path); } catch (std::filesystem::filesystem_error& s) { ok = false; ec = s.code(); got_path = s.path1(); } break;
    }
    MC_TRACE(x, "op ", op, " size ", size, " exists ", exists, " dir ", dir, " -> ", ok);
    bool expect = e.fs.num_err == 0 && !dir;
    if (op < 2) expect = expect && exists;
    MC_CHECK(x, ok == expect, "op ", op, " reported ", ok, " with ", e.fs.num_err, " system errors");
    if (ok) {
        MC_CHECK(x, ec == untouched, "error code touched on success");
        auto& now = e.fs.files["/mcfake/f"];
        MC_CHECK(x, now);
        if (op < 2) MC_CHECK(x, loaded == data, "loaded ", loaded.size(), " of ", data.size());
        else if (op < 4) MC_CHECK(x, now->data == data, "saved ", now->data.size(), " of ", data.size());
        else {
            MC_CHECK(x, now->touched == 1);
            MC_CHECK(x, now->data == (exists ? "previous contents" : ""));
        }
    }
    else {
        MC_CHECK(x, ec && ec != untouched, "no error reported");
        if (e.fs.num_err) MC_CHECK(x, ec.value() == e.fs.err, ec.message());
        else MC_CHECK(x, ec == std::errc::is_a_directory);
        if (op % 2) MC_CHECK(x, got_path == path);
    }
    x.step();
    x.outcome(mc::mix(mc::mix(std::uint64_t(ec.value()), std::uint64_t(op)), e.fs.put + e.fs.got));
    leak_check(x, e);
}
mc::Scenario s_whole("whole", 17, whole);

// --- Life cycle --------------------------------------------------------------------------------

void life(mc::Ctx& x)
{
    Env e;
    e.fs.add("a", "AAA");
    e.fs.add("b", "BBB");
    e.fs.add("d")->dir = true;
    static const std::filesystem::path paths[] = { "/mcfake/a", "/mcfake/b", "/mcfake/d", "/mcfake/none" };
    int nops = x.thorough ? 4 : 3;
    {
        std::optional<File> g[2];
        g[0].emplace();
        g[1].emplace();
        int model[2] = { -1, -1 }; // descriptor index, -2: unspecified
        auto sync = [&](int i) { // files behind the objects are the right ones
            MC_CHECK(x, g[i]->is_open() == (model[i] >= 0) && bool(*g[i]) == (model[i] >= 0), "is_open()");
            if (model[i] >= 0) {
                MC_CHECK(x, e.fs.descs[std::size_t(model[i])].open, "file was closed");
                bool f0 = e.fs.meta_faults;
                e.fs.meta_faults = false;
                auto t = g[i]->tell();
                e.fs.descs[std::size_t(model[i])].pos += 1;
                MC_CHECK(x, g[i]->tell() == t + 1, "wrong file");
                e.fs.descs[std::size_t(model[i])].pos -= 1;
                e.fs.meta_faults = f0;
            }
        };
        for (int k = 0; k < nops; ++k) {
            int i = x.choose(2);
            int op = x.choose(7);
            if (k == 1) x.shard_point();
            e.fs.reset();
            e.fs.meta_faults = true;
            std::error_code ec = untouched;
            switch (op) {
                case 0: case 1: { // open
                    int p = x.choose(4);
                    File::AccessMode am;
                    File::CreateMode cm = File::CreateMode::never;
                    File::WriteMode wm = File::WriteMode::normal;
                    bool ok = true;
                    auto before = e.fs.descs.size();
                    bool existed = e.fs.files.count(paths[p]);
                    if (op == 0) {
                        int m = x.choose(4);
                        if (k % 2) ok = g[i]->try_open(paths[p], File::Mode(m), ec);
                        else try { g[i]->open(paths[p], File::Mode(m)); } catch (std::system_error& s) { ok = false; ec = s.code(); }
                        am = m == 0 ? File::AccessMode::read_only : File::AccessMode::read_write;
                        if (m >= 2) cm = File::CreateMode::allow;
                        if (m == 2) wm = File::WriteMode::trunc;
                        if (m == 3) wm = File::WriteMode::append;
                    }
                    else {
                        struct V { File::AccessMode a; File::CreateMode c; File::WriteMode w; };
                        static const V vs[] = {
                            { File::AccessMode::read_write, File::CreateMode::must,  File::WriteMode::normal },
                            { File::AccessMode::read_write, File::CreateMode::must,  File::WriteMode::append },
                            { File::AccessMode::read_write, File::CreateMode::allow, File::WriteMode::normal },
                            { File::AccessMode::read_write, File::CreateMode::never, File::WriteMode::append },
                            { File::AccessMode::read_write, File::CreateMode::never, File::WriteMode::trunc },
                        };
                        const V& v = x.pick(vs);
                        am = v.a, cm = v.c, wm = v.w;
                        if (k % 2) ok = g[i]->try_open(paths[p], am, cm, wm, ec);
                        else try { g[i]->open(paths[p], am, cm, wm); } catch (std::system_error& s) { ok = false; ec = s.code(); }
                    }
                    MC_TRACE(x, "open ", i, " ", paths[p].string(), " -> ", ok);
                    bool opened = e.fs.descs.size() > before;
                    MC_CHECK(x, ok == (e.fs.num_err == 0 && p != 2), "open reported ", ok);
                    if (ok) {
                        MC_CHECK(x, ec == untouched && opened);
                        int fl = e.fs.descs.back().flags;
                        MC_CHECK(x, (fl & O_ACCMODE) == (am == File::AccessMode::read_only ? O_RDONLY : O_RDWR), "access mode");
                        MC_CHECK(x, bool(fl & O_CREAT) == (cm != File::CreateMode::never), "create mode");
                        MC_CHECK(x, bool(fl & O_EXCL) == (cm == File::CreateMode::must), "create mode");
                        MC_CHECK(x, bool(fl & O_TRUNC) == (wm == File::WriteMode::trunc), "write mode");
                        MC_CHECK(x, bool(fl & O_APPEND) == (wm == File::WriteMode::append), "write mode");
                        (void)existed;
                        model[i] = int(e.fs.descs.size()) - 1;
                        File::Info info = {};
                        e.fs.meta_faults = false;
                        MC_CHECK(x, g[i]->try_get_file_info(info, ec) && !info.is_directory && !g[i]->is_directory());
                    }
                    else {
                        MC_CHECK(x, ec && ec != untouched);
                        if (e.fs.num_err) MC_CHECK(x, ec.value() == e.fs.err);
                        else MC_CHECK(x, ec == std::errc::is_a_directory);
                        if (opened) { // Whether the object is left open is unspecified
                            if (g[i]->is_open()) model[i] = int(e.fs.descs.size()) - 1;
                            else model[i] = -1;
                        }
                        else if (!g[i]->is_open()) model[i] = -1;
                    }
                    break;
                }
                case 2: g[i]->close(); model[i] = -1; break;
                case 3: { // move assign
                    *g[i] = std::move(*g[1 - i]);
                    model[i] = model[1 - i];
                    model[1 - i] = -1;
                    break;
                }
                case 4: { // move construct
                    std::optional<File> t;
                    t.emplace(std::move(*g[i]));
                    MC_CHECK(x, !g[i]->is_open());
                    g[i].emplace(std::move(*t));
                    break;
                }
                case 5: g[i].emplace(); model[i] = -1; break; // destroy
                case 6: { // locking
                    if (model[i] < 0 || k < 1) { x.prune(); }
                    auto& d = e.fs.descs[std::size_t(model[i])];
                    auto other = [&] { int m = model[1 - i]; return m >= 0 && m != model[i] && e.fs.descs[std::size_t(m)].ino == d.ino ? e.fs.descs[std::size_t(m)].lock : 0; };
                    bool ex = x.choose(2);
                    bool nb = x.choose(2);
                    if (d.lock) {
                        g[i]->unlock();
                        MC_CHECK(x, d.lock == 0, "not unlocked");
                        g[i]->unlock();
                        break;
                    }
                    bool foreign = x.choose(2);
                    e.fs.foreign_lock = foreign;
                    bool conflict = foreign || (other() && (ex || other() == 2));
                    bool ok = true, thrown = false;
                    try {
                        if (nb) ok = ex ? g[i]->nb_lock_exclusive() : g[i]->nb_lock_shared();
                        else ex ? g[i]->lock_exclusive() : g[i]->lock_shared();
                    }
                    catch (std::system_error& s) { thrown = true; ec = s.code(); }
                    if (e.fs.deadlock) x.prune();
                    MC_TRACE(x, "lock ", i, " exclusive ", ex, " nonblocking ", nb, " -> ", ok, thrown);
                    MC_CHECK(x, thrown == (e.fs.num_err > 0));
                    if (thrown) MC_CHECK(x, ec.value() == e.fs.err);
                    else {
                        MC_CHECK(x, ok == !(nb && conflict), "lock result");
                        MC_CHECK(x, d.lock == (ok ? (ex ? 2 : 1) : 0), "lock state");
                    }
                    e.fs.foreign_lock = false;
                    break;
                }
            }
            e.fs.meta_faults = false;
            x.step();
            for (int j = 0; j < 2; ++j) sync(j);
            for (std::size_t j = 0; j < e.fs.descs.size(); ++j)
                MC_CHECK(x, e.fs.descs[j].open == (int(j) == model[0] || int(j) == model[1]), "descriptor ", j, " open: ", e.fs.descs[j].open);
            x.state(mc::mix(std::uint64_t(model[0] + 3), std::uint64_t(model[1] + 3)));
        }
    }
    leak_check(x, e);
}
mc::Scenario s_life("life", 64, life);

// --- Terminals and standard streams ----------------------------------------------------------------

void terminal(mc::Ctx& x)
{
    Env e;
    auto ino = e.fs.add("t");
    ino->tty = x.choose(2);
    e.fs.cols = x.pick({0, 1, 80, 65535});
    e.fs.rows = x.pick({0, 1, 25, 65535});
    e.fs.tty_err = x.pick({0, ENOTTY, EIO});
    static const std::filesystem::path path = "/mcfake/t";
    {
        File f(path);
        bool is_term = x.choose(2);
        bool is_term_0 = is_term;
        File::TerminalInfo info;
        info.size = File::TerminalInfo::Size { -5, -6 };
        std::error_code ec = untouched;
        bool ok = f.try_get_terminal_info(is_term, info, ec);
        bool expect = !(ino->tty && e.fs.tty_err == EIO);
        MC_CHECK(x, ok == expect);
        bool untouched_info = info.size && info.size->width == -5 && info.size->height == -6;
        if (!ok) MC_CHECK(x, is_term == is_term_0 && untouched_info && ec.value() == EIO);
        else {
            MC_CHECK(x, is_term == ino->tty && ec == untouched);
            if (!is_term) MC_CHECK(x, untouched_info);
            else if (e.fs.tty_err) MC_CHECK(x, !info.size);
            else MC_CHECK(x, info.size && info.size->width == e.fs.cols && info.size->height == e.fs.rows);
        }
        MC_CHECK(x, f.is_terminal() == (ok && ino->tty));
        File::TerminalInfo info_2;
        bool thrown = false, r = false;
        try { r = f.get_terminal_info(info_2); } catch (std::system_error& s) { thrown = true; }
        MC_CHECK(x, thrown == !ok && (thrown || r == ino->tty));
        x.step();
    }
    MC_CHECK(x, !File().is_terminal());
    leak_check(x, e);
}
mc::Scenario s_terminal("terminal", 1, terminal);

// Standard streams are never closed implicitly, also not after having been moved
void standard(mc::Ctx& x)
{
    Env e;
    e.fs.add("a", "AAA");
    static const std::filesystem::path path = "/mcfake/a";
    int which = x.choose(3);
    File& s = which == 0 ? File::get_cin() : which == 1 ? File::get_cout() : File::get_cerr();
    MC_CHECK(x, s.is_open());
    int nops = 3;
    alignas(File) char saved[sizeof(File)];
    std::memcpy(saved, static_cast<void*>(&s), sizeof(File));
    {
        File f, g;
        // model: what each of s, f, g refers to: 0 nothing, 1 the stream, 2 file
        int m[3] = { 1, 0, 0 };
        File* o[3] = { &s, &f, &g };
        int expect_closed = 0;
        for (int k = 0; k < nops; ++k) {
            int op = x.choose(3);
            switch (op) {
                case 0: { // move assign
                    int i = x.choose(3), j = (i + 1 + x.choose(2)) % 3;
                    *o[i] = std::move(*o[j]);
                    m[i] = m[j];
                    m[j] = 0;
                    break;
                }
                case 1: {
                    int i = x.choose(3);
                    o[i]->open(path);
                    m[i] = 2;
                    break;
                }
                case 2: {
                    int i = x.choose(3);
                    if (m[i] == 1) ++expect_closed;
                    o[i]->close();
                    m[i] = 0;
                    break;
                }
            }
            MC_CHECK(x, int(e.fs.std_closed.size()) == expect_closed, "standard stream closed implicitly");
            int files = 0;
            for (int i = 0; i < 3; ++i) {
                MC_CHECK(x, o[i]->is_open() == (m[i] != 0));
                files += m[i] == 2;
            }
            MC_CHECK(x, files == e.fs.open_count(), "wrong number of open files ", e.fs.open_count(), " instead of ", files);
            x.step();
        }
        if (m[0] == 2) s.close(); // The standard stream objects live forever
        MC_CHECK(x, int(e.fs.std_closed.size()) == expect_closed);
        for (int c : e.fs.std_closed) MC_CHECK(x, c == which);
    }
    std::memcpy(static_cast<void*>(&s), saved, sizeof(File)); // For the next execution
    leak_check(x, e);
}
mc::Scenario s_standard("standard", 1, standard);

} // namespace
