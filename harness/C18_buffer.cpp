#include "elem.hpp"
#include <archon/core/buffer.hpp>
#include <archon/core/buffer_contents.hpp>
#include <archon/core/string_buffer_contents.hpp>
#include <archon/core/memory_input_stream.hpp>
#include <archon/core/memory_output_stream.hpp>
#include <archon/core/seed_memory_output_stream.hpp>
#include <memory>
#include <optional>
#include <sstream>
using namespace archon;

namespace {

// Buffer -------------------------------------------------------------------

// mode 0: data kept at front [0,off), mode 1: data kept at back [off,size)
template<class T, int mode> void buffer_ops(mc::Ctx& x, int depth)
{
    int seed = x.choose(5);
    std::unique_ptr<T[]> mem(new T[std::size_t(seed)]);
    std::optional<core::Buffer<T>> owner;
    std::vector<T> m; // the data
    int ctor = x.choose(3);
    if (ctor == 0) { owner.emplace(core::Span<T>(mem.get(), std::size_t(seed))); MC_CHECK(x, owner->size() == std::size_t(seed) && owner->data() == mem.get()); }
    else if (ctor == 1) {
        int n = x.choose(7);
        owner.emplace(core::Span<T>(mem.get(), std::size_t(seed)), std::size_t(n));
        MC_CHECK(x, owner->size() == std::size_t(n) && (owner->data() == mem.get()) == (n <= seed));
    }
    else {
        std::vector<T> init; int n = x.choose(7); for (int i = 0; i < n; ++i) init.push_back(T(100 + i));
        owner.emplace(core::Span<T>(mem.get(), std::size_t(seed)), core::BufferDataTag(), core::Span<T>(init));
        MC_CHECK(x, owner->size() == std::size_t(n) && std::equal(init.begin(), init.end(), owner->begin()));
        m = init;
    }
    std::size_t off = mode == 0 ? m.size() : owner->size() - m.size();
    T next = 1;
    x.shard_point();
    for (int i = 0; i < depth; ++i) {
        auto& b = *owner;
        std::size_t size = b.size();
        T* addr = b.data();
        int op = x.choose(11);
        T v = next++;
        bool grew = false, may_grow = true;
        auto data = [&](int n) { std::vector<T> d; for (int j = 0; j < n; ++j) d.push_back(T(v * 10 + j)); return d; };
        switch (op) {
            case 0: { int n = x.choose(6); MC_TRACE(x, mode ? "prepend " : "append ", n); auto d = data(n); std::size_t extra = std::size_t(n);
                may_grow = extra > size - m.size();
                if (mode == 0) { b.append(core::Span<const T>(d), off); m.insert(m.end(), d.begin(), d.end()); }
                else { b.prepend(core::Span<const T>(d), off); m.insert(m.begin(), d.begin(), d.end()); } } break;
            case 1: { int n = x.choose(6); MC_TRACE(x, mode ? "prepend_a " : "append_a ", n); may_grow = std::size_t(n) > size - m.size();
                if (mode == 0) { if (n == 1) b.append_a(v, off); else b.append_a(v, off, std::size_t(n)); m.insert(m.end(), std::size_t(n), v); }
                else { if (n == 1) b.prepend_a(v, off); else b.prepend_a(v, off, std::size_t(n)); m.insert(m.begin(), std::size_t(n), v); } } break;
            case 2: { int n = x.choose(6); MC_TRACE(x, "assign ", n); if (mode == 1) x.prune(); may_grow = std::size_t(n) > size; m = data(n); b.assign(core::Span<const T>(m)); off = m.size(); } break;
            case 3: { int n = x.choose(6); MC_TRACE(x, "assign_a ", n); if (mode == 1) x.prune(); may_grow = std::size_t(n) > size; m.assign(std::size_t(n), v); if (n == 1) b.assign_a(v); else b.assign_a(v, std::size_t(n)); off = m.size(); } break;
            case 4: { if (mode == 1) x.prune(); int n = x.choose(int(size) + 4); int mx = x.choose(3); std::size_t max = mx == 0 ? std::size_t(-1) : std::size_t(n) + std::size_t(mx) - 2; if (n == 0 && mx == 1) x.prune();
                MC_TRACE(x, "reserve ", n, " max ", max); may_grow = std::size_t(n) > size; bool ok = true;
                try { b.reserve(std::size_t(n), m.size(), max); } catch (std::length_error&) { ok = false; }
                MC_CHECK(x, ok == (!may_grow || max >= std::size_t(n)), "reserve: length error");
                if (!ok) may_grow = false;
                else MC_CHECK(x, b.size() >= std::size_t(n) && b.size() <= std::max(max, size)); } break;
            case 5: { if (mode == 1) x.prune(); int n = x.choose(6); int mx = x.choose(3); std::size_t max = mx == 0 ? std::size_t(-1) : m.size() + std::size_t(n) + std::size_t(mx) - 2; if (m.size() + std::size_t(n) == 0 && mx == 1) x.prune();
                MC_TRACE(x, "reserve_extra ", n, " max ", max); may_grow = m.size() + std::size_t(n) > size; bool ok = true;
                try { b.reserve_extra(std::size_t(n), m.size(), max); } catch (std::length_error&) { ok = false; }
                MC_CHECK(x, ok == (!may_grow || max >= m.size() + std::size_t(n)), "reserve_extra: length error");
                if (!ok) may_grow = false;
                else MC_CHECK(x, b.size() >= m.size() + std::size_t(n) && b.size() <= std::max(max, size)); } break;
            case 6: { if (mode == 1) x.prune(); MC_TRACE(x, "expand"); b.expand(m.size()); MC_CHECK(x, b.size() > size); } break;
            case 7: { if (mode == 1) x.prune(); int n = int(size) + x.choose(3); int how = x.choose(2); MC_TRACE(x, "reserve_f ", n, how ? " throwing" : ""); may_grow = std::size_t(n) > size; int calls = 0; bool thrown = false;
                try { b.reserve_f(std::size_t(n), m.size(), [&](core::Span<T> mem) { ++calls; MC_CHECK(x, mem.size() >= std::size_t(n) && b.data() == addr && b.size() == size); if (how) throw 7; }); } catch (int) { thrown = true; }
                MC_CHECK(x, calls == int(may_grow) && thrown == (how && may_grow), "reserve_f");
                if (thrown) may_grow = false; else MC_CHECK(x, b.size() >= std::size_t(n)); } break;
            case 8: { MC_TRACE(x, "move"); int how = x.choose(2); if (how) { core::Buffer<T> c(std::move(b)); MC_CHECK(x, b.size() == 0 && c.data() == addr && c.size() == size); b = std::move(c); MC_CHECK(x, c.size() == 0); }
                else { core::Buffer<T> c; c = std::move(b); MC_CHECK(x, b.size() == 0 && c.size() == size); owner.emplace(std::move(c)); } may_grow = false; } break;
            case 9: { if (mode == 1) x.prune(); MC_TRACE(x, "limits"); std::size_t huge[] = { std::size_t(-1), std::size_t(-1) - size, std::size_t(-1) / sizeof(T) + 2 }; bool ok = true; int w = x.choose(3); may_grow = false;
                if (sizeof(T) == 1 && w == 2) x.prune();
                try { if (w == 0) b.reserve_extra(huge[0], m.size(), m.empty() ? huge[0] - 1 : huge[0]); else if (w == 1) { if (m.empty()) x.prune(); b.reserve_extra(huge[1] + 1 + size - m.size(), m.size()); } else b.reserve(huge[2], m.size()); }
                catch (std::length_error&) { ok = false; } catch (std::bad_alloc&) { ok = false; }
                MC_CHECK(x, !ok, "impossible size accepted"); } break;
            case 10: { MC_TRACE(x, "at"); may_grow = false; const auto& cb = b;
                for (std::size_t j = 0; j <= size + 1; ++j) { bool ok = true; const T* p = nullptr; T* q = nullptr; try { p = &cb.at(j); q = &b.at(j); } catch (std::out_of_range&) { ok = false; } MC_CHECK(x, ok == (j < size) && (!ok || (p == addr + j && q == p)), "at(", j, ") with size ", size); } } break;
        }
        auto& c = *owner;
        grew = c.size() != size;
        MC_CHECK(x, c.size() >= size, "buffer shrank");
        if (!may_grow) MC_CHECK(x, !grew && c.data() == addr, "buffer reallocated without need");
        MC_CHECK(x, off <= c.size());
        if (mode == 0) MC_CHECK(x, off == m.size(), "offset");
        else MC_CHECK(x, c.size() - off == m.size(), "offset");
        const T* p = c.data() + (mode == 0 ? 0 : off);
        MC_CHECK(x, std::equal(m.begin(), m.end(), p), "contents");
        MC_CHECK(x, c.end() - c.begin() == std::ptrdiff_t(c.size()) && c.span().size() == c.size() && c.cend() == c.end() && c.rend() - c.rbegin() == std::ptrdiff_t(c.size()));
        x.step();
        x.state(mc::mix(mc::hash_bytes(m.data(), m.size() * sizeof(T)), c.size()));
    }
    for (std::size_t j = 0; j < owner->size(); ++j) (*owner)[j] = T(1); // all of it is addressable
    x.outcome(owner->size());
}
mc::Scenario s1("buffer_front_int", 64, [](mc::Ctx& x) { buffer_ops<int, 0>(x, x.thorough ? 4 : 3); });
mc::Scenario s2("buffer_back_int", 64, [](mc::Ctx& x) { buffer_ops<int, 1>(x, x.thorough ? 5 : 4); });
mc::Scenario s3("buffer_front_char", 64, [](mc::Ctx& x) { buffer_ops<char, 0>(x, x.thorough ? 4 : 2); });

// Buffer contents
template<bool str> void contents_ops(mc::Ctx& x, int depth)
{
    int seed = x.choose(5);
    std::unique_ptr<char[]> mem(new char[std::size_t(seed)]);
    core::Buffer<char> b(core::Span<char>(mem.get(), std::size_t(seed)));
    using C = std::conditional_t<str, core::StringBufferContents, core::BufferContents<char>>;
    C c(b);
    std::string m;
    for (int i = 0; i < depth; ++i) {
        char v = char('a' + i);
        int op = x.choose(5);
        if (i == 1) x.shard_point();
        switch (op) {
            case 0: { int n = x.choose(6); std::string d; for (int j = 0; j < n; ++j) d += char(v + 5 * j); MC_TRACE(x, "append ", d); c.append(d); m += d; } break;
            case 1: { int n = x.choose(6); MC_TRACE(x, "append ", n, " x ", v); c.append(std::size_t(n), v); m.append(std::size_t(n), v); } break;
            case 2: MC_TRACE(x, "push/resize"); if constexpr (!str) { char w = v; if (x.choose(2)) c.push_back(w); else c.push_back(std::move(w)); m += v; } else { std::size_t n = m.size() / 2; c.set_size(n); m.resize(n); } break;
            case 3: MC_TRACE(x, "clear"); c.clear(); m.clear(); break;
            case 4: MC_TRACE(x, "modify"); if (m.empty()) x.prune(); c[m.size() - 1] = '!'; m.back() = '!'; break;
        }
        x.step();
        const C& cc = c;
        MC_CHECK(x, std::string_view(cc.data(), cc.size()) == m && cc.empty() == m.empty() && cc.end() - cc.begin() == std::ptrdiff_t(m.size()) && c.end() - c.begin() == std::ptrdiff_t(m.size()), "contents");
        for (std::size_t j = 0; j < m.size(); ++j) MC_CHECK(x, cc[j] == m[j]);
        x.state(mc::mix(mc::hash_str(m), b.size()));
    }
}
mc::Scenario s4("buffer_contents", 64, [](mc::Ctx& x) { contents_ops<false>(x, 4); });
mc::Scenario s5("string_buffer_contents", 64, [](mc::Ctx& x) { contents_ops<true>(x, 4); });

// Streams -------------------------------------------------------------------

template<class S> std::string status(S& s) { return std::string(s.good() ? "g" : "") + (s.eof() ? "e" : "") + (s.fail() ? "f" : "") + (s.bad() ? "b" : ""); }

mc::Scenario s6("memory_input_stream", 64, [](mc::Ctx& x) {
    static const std::string texts[] = { "", "a", "ab\nc", "12 -3\n\n", std::string("\xFF\0z", 3) };
    std::string t = x.pick(texts);
    std::unique_ptr<char[]> mem(new char[t.size()]); // exact size
    std::copy(t.begin(), t.end(), mem.get());
    core::MemoryInputStream in(std::string_view(mem.get(), t.size()));
    std::istringstream ref(t);
    int depth = x.thorough ? 4 : 3;
    for (int i = 0; i < depth; ++i) {
        int op = x.choose(14);
        if (i == 0) x.shard_point();
        auto both = [&](auto f) { auto a = f(static_cast<std::istream&>(in)); auto b = f(static_cast<std::istream&>(ref)); MC_CHECK(x, a == b, "result of stream operation ", op, ": ", mc::esc(a), ", expected ", mc::esc(b)); };
        switch (op) {
            case 0: MC_TRACE(x, "get"); both([](std::istream& s) { return mc::str(s.get()); }); break;
            case 1: MC_TRACE(x, "peek"); both([](std::istream& s) { return mc::str(s.peek()); }); break;
            case 2: { int n = x.choose(6); MC_TRACE(x, "read ", n); both([&](std::istream& s) { std::string b(std::size_t(n), '#'); s.read(b.data(), n); return mc::str(b, s.gcount()); }); } break;
            case 3: { int d = x.choose(3); int o = x.choose(9) - 4; MC_TRACE(x, "seekg ", o, " dir ", d); std::ios_base::seekdir dirs[] = { std::ios_base::beg, std::ios_base::cur, std::ios_base::end }; both([&](std::istream& s) { s.seekg(o, dirs[d]); return std::string(); }); } break;
            case 4: { int o = x.choose(7) - 1; MC_TRACE(x, "seekg pos ", o); both([&](std::istream& s) { s.seekg(std::streampos(o)); return std::string(); }); } break;
            case 5: MC_TRACE(x, "tellg"); both([](std::istream& s) { return mc::str(std::streamoff(s.tellg())); }); break;
            case 6: MC_TRACE(x, "unget"); both([](std::istream& s) { s.unget(); return std::string(); }); break;
            case 7: { char c = "ab"[x.choose(2)]; MC_TRACE(x, "putback ", c); both([&](std::istream& s) { s.putback(c); return std::string(); }); } break;
            case 8: MC_TRACE(x, "getline"); both([](std::istream& s) { std::string l; std::getline(s, l); return l; }); break;
            case 9: MC_TRACE(x, ">> int"); both([](std::istream& s) { int v = -77; s >> v; return mc::str(v); }); break;
            case 10: MC_TRACE(x, "ignore"); both([](std::istream& s) { s.ignore(2); return mc::str(s.gcount()); }); break;
            case 11: MC_TRACE(x, "clear"); in.clear(); ref.clear(); break;
            case 12: MC_TRACE(x, "get to '\\n'"); both([](std::istream& s) { char b[4] = {'#', '#', '#', '#'}; s.get(b, 3); return mc::str(std::string(b, 4), s.gcount()); }); break;
            case 13: { const char* w = "xy"; MC_TRACE(x, "reset"); in.reset(std::string_view(w)); ref.str("xy"); ref.clear(); t = w; } break;
        }
        x.step();
        MC_CHECK(x, status(in) == status(ref), "state ", status(in), ", expected ", status(ref));
        MC_CHECK(x, in.view() == t, "view");
        x.state(mc::mix(mc::hash_str(status(in)), uint64_t(in.good() ? std::streamoff(in.tellg()) : -5)));
    }
});

mc::Scenario s7("memory_output_stream", 64, [](mc::Ctx& x) {
    int cap = x.choose(6); int init = x.choose(cap + 1);
    std::unique_ptr<char[]> mem(new char[std::size_t(cap)]);
    std::string m; // contents [0,size)
    for (int i = 0; i < init; ++i) { mem[std::size_t(i)] = char('A' + i); m += char('A' + i); }
    for (int i = init; i < cap; ++i) mem[std::size_t(i)] = '~';
    core::MemoryOutputStream out(core::Span<char>(mem.get(), std::size_t(cap)), std::size_t(init));
    std::size_t pos = 0;
    bool bad = false, fail = false;
    int depth = x.thorough ? 4 : 3;
    auto store = [&](char c) { if (pos == std::size_t(cap)) return false; if (pos < m.size()) m[pos] = c; else m += c; ++pos; return true; };
    auto write = [&](const std::string& s) { if (bad || fail) return; for (char c : s) if (!store(c)) { bad = true; break; } };
    auto seek = [&](long p) { if (bad || fail) return; if (p < 0 || p > cap) { fail = true; return; } if (std::size_t(p) > m.size()) m.append(std::size_t(p) - m.size(), '\0'); pos = std::size_t(p); };
    x.shard_point();
    for (int i = 0; i < depth; ++i) {
        int op = x.choose(8);
        char v = char('a' + i);
        switch (op) {
            case 0: MC_TRACE(x, "put"); out.put(v); write(std::string(1, v)); break;
            case 1: { int n = x.choose(5); std::string d(std::size_t(n), v); MC_TRACE(x, "write ", n); out.write(d.data(), n); write(d); } break;
            case 2: { int d = x.choose(3), o = x.choose(11) - 5; MC_TRACE(x, "seekp ", o, " dir ", d); std::ios_base::seekdir dirs[] = { std::ios_base::beg, std::ios_base::cur, std::ios_base::end }; out.seekp(o, dirs[d]); seek(d == 0 ? o : d == 1 ? long(pos) + o : long(m.size()) + o); } break;
            case 3: { int o = x.choose(8) - 1; MC_TRACE(x, "seekp pos ", o); out.seekp(std::streampos(o)); seek(o); } break;
            case 4: { MC_TRACE(x, "tellp"); auto p = std::streamoff(out.tellp()); MC_CHECK(x, p == (bad || fail ? -1 : long(pos)), "tellp ", p); } break;
            case 5: { MC_TRACE(x, "clear"); out.clear(); bad = fail = false; } break;
            case 6: { MC_TRACE(x, "<< 42"); out << 42; write("42"); } break;
            case 7: { int s = x.choose(cap + 1); MC_TRACE(x, "reset ", s); out.reset(core::Span<char>(mem.get(), std::size_t(cap)), std::size_t(s)); m.assign(mem.get(), std::size_t(s)); pos = 0; bad = fail = false; } break;
        }
        x.step();
        MC_CHECK(x, out.bad() == bad && out.fail() == (bad || fail), "state ", status(out), " expected bad ", bad, " fail ", fail);
        MC_CHECK(x, out.view() == m && out.get_size() == m.size() && out.get_capacity() == std::size_t(cap) && out.get_base() == mem.get(), "view ", mc::esc(out.view()), ", expected ", mc::esc(m));
        x.state(mc::mix(mc::hash_str(m), mc::mix(pos, bad + 2 * fail)));
    }
});

mc::Scenario s8("seed_memory_output_stream", 64, [](mc::Ctx& x) {
    int cap = x.choose(5);
    std::unique_ptr<char[]> mem(new char[std::size_t(cap)]);
    core::SeedMemoryOutputStream out(core::Span<char>(mem.get(), std::size_t(cap)));
    std::string m;
    int depth = x.thorough ? 5 : 4;
    for (int i = 0; i < depth; ++i) {
        int op = x.choose(7);
        if (i == 0) x.shard_point();
        char v = char('a' + i);
        switch (op) {
            case 0: MC_TRACE(x, "put"); { char c = x.choose(2) ? char(0xFF) : v; out.put(c); m += c; } break;
            case 1: { int n = x.choose(7); std::string d; for (int j = 0; j < n; ++j) d += char(v + 6 * j); MC_TRACE(x, "write ", n); out.write(d.data(), n); m += d; } break;
            case 2: { int n = x.choose(5); MC_TRACE(x, "append ", n); std::string d; for (int j = 0; j < n; ++j) d += char(v + 6 * j); out.streambuf().append(d.data(), d.size()); m += d; } break;
            case 3: { int n = x.choose(5); MC_TRACE(x, "append fill ", n); out.streambuf().append(std::size_t(n), v); m.append(std::size_t(n), v); } break;
            case 4: { int n = x.choose(5); MC_TRACE(x, "reserve_extra ", n); out.streambuf().reserve_extra(std::size_t(n)); const char* p = out.streambuf().data(); for (int j = 0; j < n; ++j) { out.put(v); m += v; } MC_CHECK(x, p == out.streambuf().data(), "reallocated after reserve_extra"); } break;
            case 5: { MC_TRACE(x, "full_clear"); out.setstate(std::ios_base::failbit); out.full_clear(); m.clear(); } break;
            case 6: { MC_TRACE(x, "<<"); out.width(4); out << -3; m += "  -3"; } break;
        }
        x.step();
        MC_CHECK(x, out.good() && out.view() == m && out.streambuf().size() == m.size() && std::string_view(out.streambuf().data(), m.size()) == m, "view ", mc::esc(out.view()), ", expected ", mc::esc(m));
        x.state(mc::mix(mc::hash_str(m), 0));
    }
});

mc::Scenario s9("wide_streams", 16, [](mc::Ctx& x) {
    int cap = x.choose(4);
    x.shard_point();
    std::unique_ptr<wchar_t[]> mem(new wchar_t[std::size_t(cap)]), mem2(new wchar_t[std::size_t(cap)]);
    core::WideMemoryOutputStream a(core::Span<wchar_t>(mem.get(), std::size_t(cap)));
    core::WideSeedMemoryOutputStream b(core::Span<wchar_t>(mem2.get(), std::size_t(cap)));
    std::wstring m;
    for (int i = 0; i < 3; ++i) { int n = x.choose(4); std::wstring d; for (int j = 0; j < n; ++j) d += wchar_t(0x3040 + 4 * i + j); a << d; b << d; m += d; x.step(); }
    MC_CHECK(x, b.view() == m && b.good());
    MC_CHECK(x, a.view() == m.substr(0, std::size_t(cap)) && a.good() == (m.size() <= std::size_t(cap)));
    core::WideMemoryInputStream in(b.view());
    std::wstring r; for (wchar_t c; in.get(c);) r += c;
    MC_CHECK(x, r == m && in.eof());
    x.outcome(m.size());
});

} // namespace
