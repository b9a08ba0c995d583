#include "elem.hpp"
#include <archon/core/deque.hpp>
#include <list>
#include <optional>
using namespace archon;
using elem::reg; using elem::El; using elem::val;

namespace {

using Model = std::vector<int>;

template<class T> struct Run {
    mc::Ctx& x;
    std::optional<core::Deque<T>> d;
    Model m;
    int next = 1;

    static constexpr bool cp = std::is_copy_constructible_v<T>;
    static constexpr bool nt = std::is_nothrow_move_constructible_v<T>;

    explicit Run(mc::Ctx& x) : x(x) { reg.reset(); }

    void same(const core::Deque<T>& q, const Model& m, const char* what)
    {
        MC_CHECK(x, q.size() == m.size(), what, ": size ", q.size(), ", expected ", m.size());
        MC_CHECK(x, q.empty() == m.empty(), what);
        MC_CHECK(x, q.capacity() >= q.size(), what);
        for (std::size_t i = 0; i < m.size(); ++i) MC_CHECK(x, val(q[i]) == m[i], what, ": element ", i, " is ", val(q[i]), ", expected ", m[i]);
        std::size_t i = 0;
        for (auto& e : q) { MC_CHECK(x, i < m.size() && &e == &q[i], what, ": forward iteration ", i); ++i; }
        MC_CHECK(x, i == m.size(), what, ": forward iteration");
        for (auto j = q.rbegin(); j != q.rend(); ++j) { --i; MC_CHECK(x, &*j == &q[i], what, ": reverse iteration ", i); }
        MC_CHECK(x, i == 0, what, ": reverse iteration");
        if (!m.empty()) { MC_CHECK(x, val(q.front()) == m.front() && val(q.back()) == m.back(), what); }
    }
    void live(std::size_t n, const char* what)
    {
        if constexpr (elem::instrumented<T>) MC_CHECK(x, reg.live.size() == n, what, ": ", reg.live.size(), " live elements, expected ", n);
    }
    void iters()
    {
        auto& q = *d;
        auto n = std::ptrdiff_t(m.size());
        for (std::ptrdiff_t i = 0; i <= n; ++i) {
            auto a = q.begin() + i;
            for (std::ptrdiff_t j = 0; j <= n; ++j) {
                auto b = q.begin() + j;
                MC_CHECK(x, b - a == j - i, "iterator difference ", i, " ", j);
                MC_CHECK(x, (a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "iterator relations ", i, " ", j);
                auto c = a; c += j - i;
                MC_CHECK(x, c == b && a + (j - i) == b && b - (j - i) == a && (j - i) + a == b, "iterator arithmetic ", i, " ", j);
                auto e = b; e -= j - i;
                MC_CHECK(x, e == a);
                if (j < n) MC_CHECK(x, &a[j - i] == &q[std::size_t(j)], "iterator subscript ", i, " ", j);
            }
            if (i < n) { auto b = a; ++b; MC_CHECK(x, b == q.begin() + (i + 1)); MC_CHECK(x, b-- == q.begin() + (i + 1) && b == a); MC_CHECK(x, b++ == a); --b; MC_CHECK(x, b == a); }
            typename core::Deque<T>::const_iterator ca = a;
            MC_CHECK(x, ca == q.cbegin() + i && q.cend() - ca == n - i);
        }
    }

    // Operation. Returns false when not applicable
    void op(int k)
    {
        auto& q = *d;
        std::size_t size = m.size(), cap = q.capacity();
        Model before = m;
        bool strong = true;  // contents unchanged on failure
        bool prefix = false; // contents are a prefix of target on failure
        std::size_t inserted = 0;
        bool keeps_cap = false;
        int v = next++;
        std::vector<typename core::Deque<T>::iterator> it;
        for (auto i = q.begin(); i != q.end(); ++i) it.push_back(i);
        std::vector<T*> addr;
        for (auto& e : q) addr.push_back(&e);
        auto vals = [&](int n) { Model r; for (int i = 0; i < n; ++i) r.push_back(v * 10 + i); return r; };
        auto app = [&](const Model& r) { m.insert(m.end(), r.begin(), r.end()); };
        const char* name = "?";
        std::size_t other_live = 0;
        enum { none, popf, popb, pushf, pushb } kind = none;
        try {
            switch (k) {
                case 0: { name = "push_front"; int s = x.choose(3); MC_TRACE(x, "push_front ", s); m.insert(m.begin(), v); inserted = 1; kind = pushf;
                    if constexpr (!cp) { if (s == 0) x.prune(); }
                    if (s == 0) { if constexpr (cp) { reg.armed = false; const T e(v); reg.armed = true; auto& r = q.push_front(e); reg.armed = false; MC_CHECK(x, &r == &q.front()); } }
                    else if (s == 1) { reg.armed = false; T e(v); reg.armed = true; auto& r = q.push_front(std::move(e)); reg.armed = false; MC_CHECK(x, &r == &q.front()); }
                    else { auto& r = q.emplace_front(v); MC_CHECK(x, &r == &q.front()); }
                } break;
                case 1: { name = "push_back"; int s = x.choose(3); MC_TRACE(x, "push_back ", s); m.push_back(v); inserted = 1; kind = pushb;
                    if constexpr (!cp) { if (s == 0) x.prune(); }
                    if (s == 0) { if constexpr (cp) { reg.armed = false; const T e(v); reg.armed = true; auto& r = q.push_back(e); reg.armed = false; MC_CHECK(x, &r == &q.back()); } }
                    else if (s == 1) { reg.armed = false; T e(v); reg.armed = true; auto& r = q.push_back(std::move(e)); reg.armed = false; MC_CHECK(x, &r == &q.back()); }
                    else { auto& r = q.emplace_back(v); MC_CHECK(x, &r == &q.back()); }
                } break;
                case 2: name = "pop_front"; if (m.empty()) x.prune(); MC_TRACE(x, "pop_front"); m.erase(m.begin()); keeps_cap = true; kind = popf; q.pop_front(); break;
                case 3: name = "pop_back"; if (m.empty()) x.prune(); MC_TRACE(x, "pop_back"); m.pop_back(); keeps_cap = true; kind = popb; q.pop_back(); break;
                case 4: if constexpr (cp) { name = "append(n,v)"; int n = x.range(0, 4); MC_TRACE(x, "append(", n, ", v)"); reg.armed = false; const T e(v); reg.armed = true; m.insert(m.end(), std::size_t(n), v); inserted = std::size_t(n); q.append(std::size_t(n), e); } else x.prune(); break;
                case 5: { // ranges
                    name = "append(range)"; int s = x.choose(4); int n = x.range(0, s == 0 ? 3 : 4); MC_TRACE(x, "append range kind ", s, " n ", n);
                    Model r = vals(n);
                    inserted = std::size_t(n);
                    if (s == 0) { if constexpr (cp) { reg.armed = false; if (n == 3) { std::initializer_list<T> l{T(r[0]), T(r[1]), T(r[2])}; reg.armed = true; app(r); q.append(l); } else x.prune(); } else x.prune(); }
                    else if (s == 1) { app(r); q.append(r.begin(), r.end()); }
                    else if (s == 2) { if constexpr (nt || cp) { strong = false; prefix = true; app(r); inserted = 0; q.append(elem::InIter<T>{r.data()}, elem::InIter<T>{r.data() + n}); } }
                    else { std::list<int> l(r.begin(), r.end()); strong = false; prefix = true; app(r); inserted = 0; q.append(l.begin(), l.end()); }
                } break;
                case 6: if constexpr (nt) { name = "erase"; int n = int(size); int b = x.range(0, n), e = x.range(b, n); bool single = (e == b + 1 ? x.choose(2) : 0);
                    MC_TRACE(x, "erase [", b, ",", e, ")", single ? " single" : ""); m.erase(m.begin() + b, m.begin() + e); keeps_cap = true;
                    auto r = single ? q.erase(q.cbegin() + b) : q.erase(q.cbegin() + b, q.cbegin() + e);
                    MC_CHECK(x, r - q.begin() == b, "iterator returned by erase"); } else x.prune(); break;
                case 7: name = "clear"; MC_TRACE(x, "clear"); m.clear(); keeps_cap = true; q.clear(); break;
                case 8: { name = "resize"; int n = x.range(0, int(size) + 3); int s = x.choose(2); MC_TRACE(x, "resize ", n, s ? " with value" : "");
                    if (std::size_t(n) > size) inserted = std::size_t(n) - size; else keeps_cap = true;
                    if (s == 0) { m.resize(std::size_t(n), elem::instrumented<T> ? -1 : 0); q.resize(std::size_t(n)); }
                    else if constexpr (cp) { reg.armed = false; const T e(v); reg.armed = true; m.resize(std::size_t(n), v); q.resize(std::size_t(n), e); } else x.prune(); } break;
                case 9: { name = "reserve"; int n = x.range(0, int(cap) + 3), s = x.choose(2); MC_TRACE(x, s ? "reserve_extra " : "reserve ", n); if (s) q.reserve_extra(std::size_t(n)); else q.reserve(std::size_t(n));
                    MC_CHECK(x, q.capacity() >= cap && q.capacity() >= std::size_t(n) + (s ? size : 0), "capacity after reserve"); } break;
                case 10: name = "shrink_to_fit"; MC_TRACE(x, "shrink_to_fit"); q.shrink_to_fit(); MC_CHECK(x, q.capacity() == size, "capacity after shrink_to_fit"); break;
                case 11: { name = "construct"; int s = x.choose(6); MC_TRACE(x, "construct ", s);
                    if (s == 0) { if constexpr (cp) { core::Deque<T> e(q); reg.armed = false; same(e, m, "copy"); } else x.prune(); }
                    else if (s == 1) { core::Deque<T> e(std::move(q)); reg.armed = false; same(e, m, "moved to"); same(q, {}, "moved from"); q = std::move(e); same(e, {}, "moved from"); }
                    else if (s == 2) { core::Deque<T> e(std::size_t(3)); reg.armed = false; same(e, Model(3, elem::instrumented<T> ? -1 : 0), "Deque(size)"); }
                    else if (s == 3) { if constexpr (cp) { reg.armed = false; T f(v); reg.armed = true; core::Deque<T> e(std::size_t(3), f); reg.armed = false; same(e, Model(3, v), "Deque(size, value)"); } else x.prune(); }
                    else if (s == 4) { core::Deque<T> e(m.begin(), m.end()); reg.armed = false; same(e, m, "Deque(range)"); }
                    else { if constexpr (cp) { reg.armed = false; std::initializer_list<T> l{T(5), T(6)}; reg.armed = true; core::Deque<T> e(l); reg.armed = false; same(e, {5, 6}, "Deque(list)"); } else x.prune(); }
                } break;
                case 12: { name = "assign"; int s = x.choose(7); MC_TRACE(x, "assign ", s); strong = false; prefix = true;
                    Model r = vals(x.range(0, 3));
                    reg.armed = false;
                    if (s == 0) { if constexpr (cp) { m = r; core::Deque<T> e(r.begin(), r.end()); e.push_front(7); m.insert(m.begin(), 7); reg.armed = true; q = e; reg.armed = false; same(e, m, "source of assignment"); } else x.prune(); }
                    else if (s == 1) { m = r; core::Deque<T> e(r.begin(), r.end()); reg.armed = true; q = std::move(e); }
                    else if (s == 2) { if (r.size() > 0) x.prune(); if constexpr (cp) { reg.armed = true; auto& p = q; q = p; } else x.prune(); }
                    else if (s == 3) { m = r; reg.armed = true; q.assign(r.begin(), r.end()); }
                    else if (s == 4) { if constexpr (cp) { T f(v); m.assign(r.size(), v); reg.armed = true; q.assign(r.size(), f); } else x.prune(); }
                    else if (s == 5) { if (r.size() > 0) x.prune(); if constexpr (cp) { std::initializer_list<T> l{T(5), T(6)}; m = {5, 6}; reg.armed = true; if (v & 1) q = l; else q.assign(l); } else x.prune(); }
                    else { if (r.size() > 0) x.prune(); core::Deque<T> e; for (int i = 0; i < 5; ++i) e.push_front(i); e.pop_back(); reg.armed = true; if (v & 1) q.swap(e); else swap(q, e); reg.armed = false; same(e, before, "swapped"); m = {4, 3, 2, 1}; }
                } break;
            }
            reg.armed = false;
            if (x.tracing) MC_TRACE(x, "-> size ", q.size(), " capacity ", q.capacity());
            same(q, m, name);
            if (keeps_cap) MC_CHECK(x, q.capacity() == cap, name, " changed the capacity");
            if (inserted > 0 && cap >= size + inserted) {
                MC_CHECK(x, q.capacity() == cap, name, " reallocated though capacity sufficed");
                for (std::size_t i = 0; i < size; ++i) MC_CHECK(x, &q[i + (kind == pushf)] == addr[i], name, " moved elements though capacity sufficed");
            }
            // Iterator validity rules
            if (kind == popf) for (std::size_t i = 1; i < size; ++i) MC_CHECK(x, it[i] - q.begin() == std::ptrdiff_t(i) - 1 && &*it[i] == addr[i], "iterator after pop_front");
            if (kind == popb) { for (std::size_t i = 0; i + 1 < size; ++i) MC_CHECK(x, &*it[i] == addr[i], "iterator after pop_back"); MC_CHECK(x, it[size - 1] == q.end(), "iterator to popped element becomes end"); }
            if (kind == pushf && cap > size) for (std::size_t i = 0; i < size; ++i) MC_CHECK(x, &*it[i] == addr[i] && it[i] - q.begin() == std::ptrdiff_t(i) + 1, "iterator after push_front");
            if (kind == pushb && cap > size) for (std::size_t i = 0; i < size; ++i) MC_CHECK(x, &*it[i] == addr[i] && it[i] - q.begin() == std::ptrdiff_t(i), "iterator after push_back");
        }
        catch (elem::Thrown&) {
            reg.armed = false;
            MC_TRACE(x, "threw");
            other_live = 0;
            if (strong) { m = before; same(q, m, name); MC_CHECK(x, keeps_cap == false, name, " threw"); }
            else {
                MC_CHECK(x, prefix);
                Model now;
                for (auto& e : q) now.push_back(val(e));
                MC_CHECK(x, now.size() <= m.size() && std::equal(now.begin(), now.end(), m.begin()), name, ": contents after failure are not a prefix of the target");
                if (k == 5) MC_CHECK(x, now.size() >= before.size(), name, ": lost old elements on failure");
                m = now;
                same(q, m, name);
            }
        }
        (void)other_live;
        x.step();
        live(m.size(), name);
        uint64_t h = mc::mix(q.capacity(), size);
        for (int e : m) h = mc::mix(h, uint64_t(e));
        x.state(h);
    }

    void go(int max_cap, int depth)
    {
        int c = x.range(0, max_cap);
        int off = c > 0 ? x.range(0, c) : 0;
        int n = x.range(0, c);
        x.shard_point();
        d.emplace();
        if (c > 0) {
            d->reserve(std::size_t(c));
            if (d->capacity() != std::size_t(c)) x.prune(); // state reached from another initial state
            for (int i = 0; i < off; ++i) { d->emplace_back(0); d->pop_front(); }
            for (int i = 0; i < n; ++i) { d->emplace_back(next); m.push_back(next++); }
        }
        next = 20;
        MC_TRACE(x, "cap ", c, " offset ", off, " size ", n);
        same(*d, m, "initial");
        iters();
        for (int i = 0; i < depth; ++i) {
            int k = x.choose(13);
            reg.armed = true;
            op(k);
        }
        iters();
        d.reset();
        live(0, "destruction");
        x.outcome(mc::mix(reg.constructions, reg.destructions));
    }
};

mc::Scenario s1("nothrow_move", 64, [](mc::Ctx& x) { Run<El<0>>(x).go(x.thorough ? 7 : 5, 2); });
mc::Scenario s1b("nothrow_move_wide", 128, [](mc::Ctx& x) { Run<El<0>>(x).go(9, 1); });
mc::Scenario s2("throwing_move", 64, [](mc::Ctx& x) { Run<El<1>>(x).go(x.thorough ? 6 : 4, 2); });
mc::Scenario s3("move_only", 64, [](mc::Ctx& x) { Run<El<2>>(x).go(x.thorough ? 6 : 4, 2); });
mc::Scenario s4("trivial", 128, [](mc::Ctx& x) { Run<int>(x).go(x.thorough ? 8 : 6, 2); });
mc::Scenario s5("nothrow_move_deep", 128, [](mc::Ctx& x) { Run<El<0>>(x).go(4, 3); }, true);

// Relations between deques with different ring-buffer positions
mc::Scenario s6("relations", 32, [](mc::Ctx& x) {
    Model a, b;
    auto make = [&](Model& m) {
        core::Deque<int> d; d.reserve(4);
        int off = x.choose(5); int n = x.choose(4);
        for (int i = 0; i < off; ++i) { d.push_back(0); d.pop_front(); }
        for (int i = 0; i < n; ++i) { int v = x.choose(2); d.push_back(v); m.push_back(v); }
        return d;
    };
    auto p = make(a);
    x.shard_point();
    auto q = make(b);
    x.step();
    x.outcome(mc::mix(a < b, a == b));
    MC_CHECK(x, (p == q) == (a == b) && (p != q) == (a != b) && (p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b));
    const auto& cp = p;
    for (std::size_t i = 0; i < 6; ++i) {
        bool ok = true; int v = 0;
        try { v = cp.at(i); } catch (std::out_of_range&) { ok = false; }
        MC_CHECK(x, ok == (i < a.size()) && (!ok || v == a[i]));
    }
});

mc::Scenario s7("limits", 1, [](mc::Ctx& x) {
    core::Deque<long> d; d.push_back(1); d.push_back(2);
    std::size_t huge[] = { std::size_t(-1), std::size_t(-2), std::size_t(-1) / 8 + 1, std::size_t(-1) / 4, std::size_t(-1) / 2 };
    std::size_t n = huge[x.choose(5)]; int k = x.choose(3);
    bool ok = true;
    try { if (k == 0) d.reserve(n); else if (k == 1) d.reserve_extra(n); else d.resize(n); }
    catch (std::length_error&) { ok = false; }
    catch (std::bad_alloc&) { ok = false; }
    x.step(); x.outcome(ok);
    MC_CHECK(x, !ok && d.size() == 2 && d[0] == 1 && d[1] == 2);
});

} // namespace
