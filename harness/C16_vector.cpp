#include "elem.hpp"
#include <archon/core/vector.hpp>
#include <list>
#include <optional>
using namespace archon;
using elem::reg; using elem::El; using elem::val;

namespace {

using Model = std::vector<int>;

template<class T, std::size_t N> struct Run {
    using V = core::Vector<T, N>;
    mc::Ctx& x;
    std::optional<V> d;
    Model m;
    int next = 20;

    static constexpr bool cp = std::is_copy_constructible_v<T>;
    static constexpr bool nt = std::is_nothrow_move_constructible_v<T>;
    static constexpr int def = elem::instrumented<T> ? -1 : 0;

    explicit Run(mc::Ctx& x) : x(x) { reg.reset(); }

    static bool inside(const V& q) { auto p = reinterpret_cast<const char*>(q.data()); auto b = reinterpret_cast<const char*>(&q); return p >= b && p < b + sizeof q; }

    void same(const V& q, const Model& m, const char* what)
    {
        MC_CHECK(x, q.size() == m.size(), what, ": size ", q.size(), ", expected ", m.size());
        MC_CHECK(x, q.empty() == m.empty(), what);
        MC_CHECK(x, q.capacity() >= q.size(), what);
        for (std::size_t i = 0; i < m.size(); ++i) MC_CHECK(x, val(q[i]) == m[i], what, ": element ", i, " is ", val(q[i]), ", expected ", m[i]);
        MC_CHECK(x, q.end() - q.begin() == std::ptrdiff_t(m.size()) && q.begin() == q.data() && q.cend() == q.end() && q.cbegin() == q.begin(), what);
        MC_CHECK(x, q.rend() - q.rbegin() == std::ptrdiff_t(m.size()), what);
        MC_CHECK(x, q.span().data() == q.data() && q.span().size() == m.size(), what);
        if (!m.empty()) { MC_CHECK(x, val(q.front()) == m.front() && val(q.back()) == m.back() && val(*q.rbegin()) == m.back(), what); }
        for (std::size_t i = 0; i <= m.size() + 1; ++i) {
            bool ok = true; const T* p = nullptr;
            try { p = &q.at(i); } catch (std::out_of_range&) { ok = false; }
            MC_CHECK(x, ok == (i < m.size()) && (!ok || p == &q[i]), what, ": at(", i, ")");
        }
    }
    void live(std::size_t n, const char* what)
    {
        if constexpr (elem::instrumented<T>) MC_CHECK(x, reg.live.size() == n, what, ": ", reg.live.size(), " live elements, expected ", n);
    }

    void op(int k)
    {
        auto& q = *d;
        std::size_t size = m.size(), cap = q.capacity();
        Model before = m;
        bool strong = true, prefix = false, keeps_cap = false, may_reduce = false;
        std::size_t inserted = 0;
        std::size_t stable = size; // elements before this position must not move if capacity suffices
        int v = next++;
        T* data = q.data();
        auto vals = [&](int n) { Model r; for (int i = 0; i < n; ++i) r.push_back(v * 10 + i); return r; };
        auto app = [&](const Model& r) { m.insert(m.end(), r.begin(), r.end()); };
        const char* name = "?";
        try {
            switch (k) {
                case 0: { name = "push_back"; int s = x.choose(3); MC_TRACE(x, "push_back ", s); m.push_back(v); inserted = 1;
                    if constexpr (!cp) { if (s == 0) x.prune(); }
                    if (s == 0) { if constexpr (cp) { reg.armed = false; const T e(v); reg.armed = true; auto& r = q.push_back(e); reg.armed = false; MC_CHECK(x, &r == &q.back()); } }
                    else if (s == 1) { reg.armed = false; T e(v); reg.armed = true; auto& r = q.push_back(std::move(e)); reg.armed = false; MC_CHECK(x, &r == &q.back()); }
                    else { auto& r = q.emplace_back(v); MC_CHECK(x, &r == &q.back()); }
                } break;
                case 1: name = "pop_back"; if (m.empty()) x.prune(); MC_TRACE(x, "pop_back"); m.pop_back(); keeps_cap = true; q.pop_back(); break;
                case 2: if constexpr (cp) { name = "append(n,v)"; int n = x.range(0, 4); MC_TRACE(x, "append(", n, ", v)"); reg.armed = false; const T e(v); reg.armed = true; m.insert(m.end(), std::size_t(n), v); inserted = std::size_t(n); q.append(std::size_t(n), e); } else x.prune(); break;
                case 3: {
                    name = "append(range)"; int s = x.choose(4); int n = x.range(0, 4); MC_TRACE(x, "append range kind ", s, " n ", n);
                    Model r = vals(n);
                    inserted = std::size_t(n);
                    if (s == 0) { if constexpr (cp) { reg.armed = false; if (n == 3) { std::initializer_list<T> l{T(r[0]), T(r[1]), T(r[2])}; reg.armed = true; app(r); q.append(l); } else x.prune(); } else x.prune(); }
                    else if (s == 1) { app(r); q.append(r.begin(), r.end()); }
                    else if (s == 2) { strong = false; prefix = true; app(r); inserted = 0; q.append(elem::InIter<T>{r.data()}, elem::InIter<T>{r.data() + n}); }
                    else { std::list<int> l(r.begin(), r.end()); strong = false; prefix = true; app(r); inserted = 0; q.append(l.begin(), l.end()); }
                } break;
                case 4: if constexpr (nt) { name = "erase"; int n = int(size); int b = x.range(0, n), e = x.range(b, n); bool single = (e == b + 1 ? x.choose(2) : 0);
                    MC_TRACE(x, "erase [", b, ",", e, ")", single ? " single" : ""); m.erase(m.begin() + b, m.begin() + e); keeps_cap = true;
                    auto r = single ? q.erase(q.cbegin() + b) : q.erase(q.cbegin() + b, q.cbegin() + e);
                    MC_CHECK(x, r - q.begin() == b, "iterator returned by erase"); } else x.prune(); break;
                case 5: if constexpr (nt) { name = "emplace"; int p = x.range(0, int(size)); MC_TRACE(x, "emplace at ", p); m.insert(m.begin() + p, v); inserted = 1; stable = std::size_t(p);
                    auto r = q.emplace(q.cbegin() + p, v); MC_CHECK(x, r - q.begin() == p, "iterator returned by emplace"); } else x.prune(); break;
                case 6: name = "clear"; MC_TRACE(x, "clear"); m.clear(); keeps_cap = true; q.clear(); break;
                case 7: { name = "resize"; int n = x.range(0, int(size) + 3); int s = x.choose(2); MC_TRACE(x, "resize ", n, s ? " with value" : "");
                    if (std::size_t(n) > size) inserted = std::size_t(n) - size; else keeps_cap = true;
                    if (s == 0) { m.resize(std::size_t(n), def); q.resize(std::size_t(n)); }
                    else if constexpr (cp) { reg.armed = false; const T e(v); reg.armed = true; m.resize(std::size_t(n), v); q.resize(std::size_t(n), e); } else x.prune(); } break;
                case 8: { name = "reserve"; int n = x.range(0, int(cap) + 3), s = x.choose(2); MC_TRACE(x, s ? "reserve_extra " : "reserve ", n);
                    std::size_t want = std::size_t(n) + (s ? size : 0);
                    if (s) q.reserve_extra(std::size_t(n)); else q.reserve(std::size_t(n));
                    reg.armed = false;
                    MC_CHECK(x, q.capacity() >= cap && q.capacity() >= want, "capacity after reserve");
                    if (want <= cap) MC_CHECK(x, q.data() == data && q.capacity() == cap, "reserve within capacity must not reallocate");
                    // reserve_extra(n) has the same effect as reserve(size + n)
                    if constexpr (nt) { core::Vector<T, N> a, b; for (std::size_t i = 0; i < size; ++i) { a.emplace_back(1); b.emplace_back(1); } a.reserve_extra(std::size_t(n)); b.reserve(size + std::size_t(n)); MC_CHECK(x, a.capacity() == b.capacity(), "reserve_extra(", n, ") at size ", size, " gives capacity ", a.capacity(), ", but reserve(", size + std::size_t(n), ") gives ", b.capacity()); }
                } break;
                case 9: { name = "shrink_to_fit"; MC_TRACE(x, "shrink_to_fit"); bool own = !inside(q) && q.capacity() > 0; may_reduce = true; q.shrink_to_fit(); MC_CHECK(x, q.capacity() == (own ? size : cap), "capacity after shrink_to_fit"); } break;
                case 10: { name = "construct"; int s = x.choose(5); MC_TRACE(x, "construct ", s); may_reduce = true;
                    if (s == 0) { if constexpr (nt) { V e(std::move(q)); reg.armed = false; same(e, m, "moved to"); MC_CHECK(x, e.capacity() == cap, "capacity after move"); same(q, {}, "moved from"); live(m.size(), "move"); if (v & 1) { q.emplace_back(3); same(q, {3}, "reuse of moved from"); } q = std::move(e); same(e, {}, "moved from"); } else x.prune(); }
                    else if (s == 1) { V e(std::size_t(3)); reg.armed = false; same(e, Model(3, def), "Vector(size)"); }
                    else if (s == 2) { if constexpr (cp) { reg.armed = false; T f(v); reg.armed = true; V e(std::size_t(3), f); reg.armed = false; same(e, Model(3, v), "Vector(size, value)"); } else x.prune(); }
                    else if (s == 3) { V e(m.begin(), m.end()); reg.armed = false; same(e, m, "Vector(range)"); }
                    else { if constexpr (cp) { reg.armed = false; std::initializer_list<T> l{T(5), T(6)}; reg.armed = true; V e(l); reg.armed = false; same(e, {5, 6}, "Vector(list)"); } else x.prune(); }
                } break;
                case 11: { name = "assign"; int s = x.choose(5); MC_TRACE(x, "assign ", s); strong = false; prefix = true; may_reduce = true;
                    Model r = vals(x.range(0, 3));
                    reg.armed = false;
                    if (s == 0) { if constexpr (nt) { m = r; V e(r.begin(), r.end()); reg.armed = true; q = std::move(e); reg.armed = false; same(e, {}, "moved from"); } else x.prune(); }
                    else if (s == 1) { m = r; reg.armed = true; q.assign(r.begin(), r.end()); }
                    else if (s == 2) { if constexpr (cp) { T f(v); m.assign(r.size(), v); reg.armed = true; q.assign(r.size(), f); } else x.prune(); }
                    else if (s == 3) { if (r.size() > 0) x.prune(); if constexpr (cp) { std::initializer_list<T> l{T(5), T(6)}; m = {5, 6}; reg.armed = true; q.assign(l); } else x.prune(); }
                    else { if constexpr (nt) { V e(r.begin(), r.end()); e.reserve(5); std::swap(q, e); same(e, before, "swapped"); m = r; } else x.prune(); }
                } break;
            }
            reg.armed = false;
            if (x.tracing) MC_TRACE(x, "-> size ", q.size(), " capacity ", q.capacity());
            same(q, m, name);
            if (keeps_cap) MC_CHECK(x, q.capacity() == cap && q.data() == data, name, " changed the capacity");
            if (!may_reduce) MC_CHECK(x, q.capacity() >= cap, name, " reduced the capacity");
            if (inserted > 0 && cap >= size + inserted) MC_CHECK(x, q.capacity() == cap && q.data() == data, name, " reallocated though capacity sufficed");
            (void)stable;
        }
        catch (elem::Thrown&) {
            reg.armed = false;
            MC_TRACE(x, "threw");
            if (strong) { m = before; same(q, m, name); MC_CHECK(x, !keeps_cap, name, " threw"); }
            else {
                MC_CHECK(x, prefix);
                Model now;
                for (auto& e : q) now.push_back(val(e));
                MC_CHECK(x, now.size() <= m.size() && std::equal(now.begin(), now.end(), m.begin()), name, ": contents after failure are not a prefix of the target");
                if (k == 3) MC_CHECK(x, now.size() >= before.size(), name, ": lost old elements on failure");
                m = now;
                same(q, m, name);
            }
            if (inserted > 0 && cap >= size + inserted) MC_CHECK(x, q.capacity() == cap && q.data() == data, name, " reallocated though capacity sufficed");
        }
        x.step();
        live(m.size(), name);
        uint64_t h = mc::mix(q.capacity(), mc::mix(size, inside(q)));
        for (int e : m) h = mc::mix(h, uint64_t(e));
        x.state(h);
    }

    void go(int max_cap, int depth)
    {
        int c = x.range(int(N), max_cap);
        int n = x.range(0, c);
        int k0 = x.choose(12);
        x.shard_point();
        d.emplace();
        if (std::size_t(c) > N) { d->reserve(std::size_t(c)); if (d->capacity() != std::size_t(c)) x.prune(); }
        MC_CHECK(x, d->capacity() == std::size_t(c), "initial capacity");
        for (int i = 0; i < n; ++i) { d->emplace_back(i + 1); m.push_back(i + 1); }
        MC_TRACE(x, "cap ", c, " size ", n);
        same(*d, m, "initial");
        for (int i = 0; i < depth; ++i) {
            int k = i == 0 ? k0 : x.choose(12);
            reg.armed = true;
            op(k);
        }
        d.reset();
        live(0, "destruction");
        x.outcome(mc::mix(reg.constructions, reg.destructions));
    }
};

mc::Scenario s1("nothrow_move", 64, [](mc::Ctx& x) { Run<El<0>, 0>(x).go(x.thorough ? 6 : 4, 2); });
mc::Scenario s1b("nothrow_move_static2", 64, [](mc::Ctx& x) { Run<El<0>, 2>(x).go(x.thorough ? 6 : 5, 2); });
mc::Scenario s1c("nothrow_move_static4", 64, [](mc::Ctx& x) { Run<El<0>, 4>(x).go(x.thorough ? 7 : 5, 2); });
mc::Scenario s2("throwing_move", 64, [](mc::Ctx& x) { Run<El<1>, 0>(x).go(x.thorough ? 6 : 4, 2); });
mc::Scenario s2b("throwing_move_static", 64, [](mc::Ctx& x) { Run<El<1>, 2>(x).go(x.thorough ? 6 : 4, 2); });
mc::Scenario s3("move_only", 64, [](mc::Ctx& x) { Run<El<2>, 1>(x).go(x.thorough ? 6 : 4, 2); });
mc::Scenario s4("trivial", 64, [](mc::Ctx& x) { Run<int, 0>(x).go(x.thorough ? 8 : 6, 2); });
mc::Scenario s4b("trivial_static", 64, [](mc::Ctx& x) { Run<int, 3>(x).go(x.thorough ? 8 : 6, 2); });
mc::Scenario s5("nothrow_move_deep", 128, [](mc::Ctx& x) { Run<El<0>, 1>(x).go(3, 3); }, true);
mc::Scenario s5b("trivial_deep", 128, [](mc::Ctx& x) { Run<int, 2>(x).go(3, 3); }, true);

mc::Scenario s6("relations", 32, [](mc::Ctx& x) {
    Model a, b;
    int n = x.choose(5);
    for (int i = 0; i < n; ++i) a.push_back(x.choose(2));
    x.shard_point();
    n = x.choose(5);
    for (int i = 0; i < n; ++i) b.push_back(x.choose(2));
    core::Vector<int, 2> p(a.begin(), a.end()); core::Vector<int, 3> q(b.begin(), b.end());
    x.step();
    x.outcome(mc::mix(a < b, a == b));
    MC_CHECK(x, (p == q) == (a == b) && (p != q) == (a != b) && (p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b));
});

mc::Scenario s7("limits", 1, [](mc::Ctx& x) {
    core::Vector<long, 1> d; d.push_back(1); if (x.choose(2)) d.push_back(2);
    auto s = d.size();
    std::size_t huge[] = { std::size_t(-1), std::size_t(-2), std::size_t(-1) / 8 + 1, std::size_t(-1) / 4, std::size_t(-1) / 2 };
    std::size_t n = huge[x.choose(5)]; int k = x.choose(3);
    bool ok = true;
    try { if (k == 0) d.reserve(n); else if (k == 1) d.reserve_extra(n); else d.resize(n); }
    catch (std::length_error&) { ok = false; }
    catch (std::bad_alloc&) { ok = false; }
    x.step(); x.outcome(ok);
    MC_CHECK(x, !ok && d.size() == s && d[0] == 1);
});

} // namespace
