// C13: sources and sinks deliver every byte once and in order, under all short transfer,
// interruption and error patterns.
#include "fakefs.hpp"
#include <array>
#include <optional>
#include <system_error>
#include <archon/core/assert.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/filesystem.hpp>
#include <archon/core/file.hpp>
#include <archon/core/file_source.hpp>
#include <archon/core/file_sink.hpp>
#include <archon/core/rewindable_source.hpp>

using namespace archon;

namespace {

struct Env {
    fakefs::FS fs;
    Env() { fakefs::fs = &fs; }
    ~Env() { fakefs::fs = nullptr; }
};
const std::error_code untouched(12345, std::generic_category());
const std::error_code custom_error(77, std::generic_category());
struct Boom {};

// Source whose behavior is chosen
struct ChoiceSource : core::Source {
    mc::Ctx& x;
    std::string data;
    std::size_t pos = 0;
    int errors = 0, throws = 0;
    ChoiceSource(mc::Ctx& x_, std::string d) : x(x_), data(std::move(d)) {}
    bool do_try_read_some(core::Span<char> buffer, std::size_t& n, std::error_code& ec) override
    {
        std::size_t k = std::min(buffer.size(), data.size() - pos);
        int shorts = k > 2 ? 2 : k > 1 ? 1 : 0;
        int c = x.deviate(3 + shorts);
        if (c == 1) {
            ++errors;
            for (auto& b : buffer) b = '!'; // Contents may be clobbered
            ec = custom_error;
            return false;
        }
        if (c == 2) { ++throws; throw Boom(); }
        if (c == 3) k = 1;
        if (c == 4) k -= 1;
        for (std::size_t i = 0; i < k; ++i) buffer[i] = data[pos + i];
        for (std::size_t i = k; i < buffer.size(); ++i) buffer[i] = '!';
        pos += k;
        n = k;
        return true;
    }
};

void read(mc::Ctx& x)
{
    Env e;
    int kind = x.choose(5); // 0: file, 1: buffered file, 2: rewindable on file, 3: rewindable on buffered file, 4: rewindable on choices
    std::string data = std::string("abcdefg").substr(0, std::size_t((x.thorough ? x.pick({0, 1, 4, 7}) : x.pick({0, 5}))));
    int bufsize = kind == 1 || kind == 3 ? (x.thorough ? x.pick({1, 2, 3, 9}) : x.pick({1, 3})) : 0;
    int seed = kind >= 2 ? (x.thorough ? x.pick({0, 1, 3, 64}) : x.pick({0, 3})) : 0;
    x.shard_point();
    e.fs.add("f", data);
    static const std::filesystem::path path = "/mcfake/f";
    {
        core::File f(path);
        std::string mem(std::size_t(bufsize), '?');
        core::FileSource s1(f);
        std::optional<core::BufferedFileSource> s2;
        if (bufsize) s2.emplace(f, core::Span<char>(mem.data(), mem.size()));
        ChoiceSource s3(x, data);
        core::Source* sub = kind == 4 ? static_cast<core::Source*>(&s3) : s2 ? static_cast<core::Source*>(&*s2) : static_cast<core::Source*>(&s1);
        core::Buffer<char> rb{std::size_t(seed)};
        std::optional<core::RewindableSource> s4;
        core::Source* s = sub;
        if (kind >= 2) {
            s4.emplace(*sub, rb);
            s = &*s4;
        }
        std::size_t pos = 0, high = 0;
        bool released = false;
        int nops = (kind < 2 ? 3 : 4) + (x.thorough && kind < 2 ? 1 : 0);
        for (int i = 0; i < nops; ++i) {
            int op = x.choose(kind < 2 ? 3 : released ? 3 : 5);
            if (op == 3) {
                s4->rewind();
                pos = 0;
                MC_TRACE(x, "rewind");
                continue;
            }
            if (op == 4) {
                s4->release();
                if (x.choose(2)) s4->release(); // Idempotent
                released = true;
                MC_TRACE(x, "release");
                continue;
            }
            std::size_t k = std::size_t(op < 2 ? x.pick({1, 2, 5}) : x.pick({0, 3}));
            e.fs.reset();
            e.fs.faults = true;
            s3.errors = s3.throws = 0;
            std::string b(k, '.');
            std::size_t n = 777;
            std::error_code ec = untouched;
            bool ok = true, thrown = false;
            std::size_t rem = data.size() - pos;
            bool chunk = op != 0;
            try {
                if (op == 0) ok = s->try_read_some(core::Span<char>(b.data(), k), n, ec);
                else if (op == 1) ok = s->try_read(core::Span<char>(b.data(), k), n, ec);
                else try { n = (chunk = x.choose(2)) ? s->read(core::Span<char>(b.data(), k)) : s->read_some(core::Span<char>(b.data(), k)); }
                catch (std::system_error& q) { ok = false; ec = q.code(); n = 777; }
            }
            catch (Boom&) { thrown = true; }
            e.fs.faults = false;
            int errs = e.fs.num_err + s3.errors;
            MC_TRACE(x, "op", op, "(", k, ") -> ok=", ok, " n=", n, " ", mc::esc(b));
            x.step();
            MC_CHECK(x, thrown == (s3.throws > 0));
            if (thrown) {
                MC_CHECK(x, n == 777 && ec == untouched, "out arguments changed by exception");
                if (op == 1 || chunk) { // Unknown how much was read
                    if (kind != 4) x.prune();
                    if (k > 1 || released) x.prune();
                }
                continue;
            }
            MC_CHECK(x, ok == (errs == 0), "reported ", ok, " with ", errs, " errors");
            if (ok) {
                MC_CHECK(x, ec == untouched);
                if (chunk) MC_CHECK(x, n == std::min(k, rem), "n = ", n);
                else MC_CHECK(x, n <= std::min(k, rem) && (n > 0 || k == 0 || rem == 0), "n = ", n);
            }
            else {
                MC_CHECK(x, kind == 4 ? ec == custom_error : ec.value() == EIO, ec.message());
                if (op == 1) MC_CHECK(x, n < k || k == 0, "n = ", n);
                else if (op == 0) {
                    MC_CHECK(x, n == 777);
                    n = 0;
                }
                else {
                    if (chunk) x.prune(); // Progress unknown
                    n = 0;
                }
            }
            MC_CHECK(x, std::string_view(b).substr(0, n) == std::string_view(data).substr(pos, n), "got ", mc::esc(b.substr(0, n)), " at ", pos);
            pos += n;
            high = std::max(high, pos);
            x.state(mc::mix(mc::mix(pos, high), std::uint64_t(kind * 2 + released)));
        }
        // The rest arrives
        std::string b(data.size() + 1, '.');
        if (kind != 4) {
            std::size_t n = s->read(core::Span<char>(b.data(), b.size()));
            MC_CHECK(x, b.substr(0, n) == data.substr(pos), "rest ", mc::esc(b.substr(0, n)), " after ", pos);
            n = s->read(core::Span<char>(b.data(), b.size()));
            MC_CHECK(x, n == 0, "data after end");
        }
    }
    MC_CHECK(x, e.fs.open_count() == 0);
}
mc::Scenario s_read("read", 64, read);

void write(mc::Ctx& x)
{
    Env e;
    int kind = x.choose(2); // 0: direct, 1: buffered
    int bufsize = kind ? x.pick({1, 2, 3, 5}) : 0;
    auto ino = e.fs.add("f", "");
    static const std::filesystem::path path = "/mcfake/f";
    {
        core::File f(path, core::File::Mode::write);
        std::string mem(std::size_t(bufsize), '?');
        core::FileSink s1(f);
        std::optional<core::BufferedFileSink> s2;
        if (kind) s2.emplace(f, core::Span<char>(mem.data(), mem.size()));
        core::Sink& s = kind ? static_cast<core::Sink&>(*s2) : s1;
        std::string accepted;
        char next = 'a';
        int nops = x.thorough ? 4 : 3;
        for (int i = 0; i < nops; ++i) {
            int op = x.choose(kind ? 4 : 2);
            if (i == 1) x.shard_point();
            e.fs.reset();
            e.fs.faults = true;
            std::size_t n = 777;
            std::error_code ec = untouched;
            bool ok = true;
            if (op < 2) {
                std::size_t k = std::size_t(x.pick({0, 1, 2, 4, 7}));
                std::string d;
                for (std::size_t j = 0; j < k; ++j) d += next++;
                std::string expect = accepted + d;
                if (op == 0) ok = s.try_write(d, n, ec);
                else try { s.write(d); n = k; } catch (std::system_error& q) { ok = false; ec = q.code(); }
                MC_CHECK(x, ok == (e.fs.num_err == 0));
                if (ok) MC_CHECK(x, n == k && ec == untouched, "n = ", n);
                else {
                    MC_CHECK(x, ec.value() == ENOSPC);
                    if (op == 1) x.prune(); // Progress unknown
                    MC_CHECK(x, n < k || k == 0, "n = ", n);
                    next = char(next - (k - n)); // Caller continues where it stopped
                }
                accepted += d.substr(0, n);
                MC_TRACE(x, "write ", k, " -> ", ok, " n=", n);
                if (!kind) MC_CHECK(x, ino->data == accepted, mc::esc(ino->data));
            }
            else {
                if (op == 2) ok = s2->try_flush(ec);
                else try { s2->flush(); } catch (std::system_error& q) { ok = false; ec = q.code(); }
                MC_CHECK(x, ok == (e.fs.num_err == 0));
                if (ok) MC_CHECK(x, (op == 3 || ec == untouched) && ino->data == accepted, "after flush ", mc::esc(ino->data), " expected ", mc::esc(accepted));
                else MC_CHECK(x, ec.value() == ENOSPC);
                MC_TRACE(x, "flush -> ", ok);
            }
            e.fs.faults = false;
            x.step();
            MC_CHECK(x, ino->data == accepted.substr(0, ino->data.size()), "file ", mc::esc(ino->data), " is no prefix of ", mc::esc(accepted));
            MC_CHECK(x, accepted.size() - ino->data.size() <= std::size_t(bufsize), "more data withheld than fits in the buffer");
            x.state(mc::mix(mc::hash_str(ino->data), accepted.size()));
        }
        if (kind) {
            s2->flush();
            MC_CHECK(x, ino->data == accepted, "finally ", mc::esc(ino->data));
        }
    }
}
mc::Scenario s_write("write", 64, write);

} // namespace
