#include "elem.hpp"
#include <archon/core/flat_map.hpp>
#include <archon/core/flat_set.hpp>
#include <archon/core/flat_multimap.hpp>
#include <archon/core/flat_multiset.hpp>
#include <map>
#include <optional>
#include <set>
using namespace archon;
using elem::reg;

namespace {

// Key whose order ignores part of its value, and is descending
struct Key {
    int k, tag;
    Key(int v) : k(v % 8), tag(v / 8) {}
    bool operator<(const Key& o) const noexcept { return k > o.k; }
};
int raw(int k) { return k; }
int raw(const Key& k) { return k.k + 8 * k.tag; }
int raw(const std::string& k) { return int(k.size()); }
template<class K> K mk(int v) { return K(v); }
template<> std::string mk<std::string>(int v) { return std::string(std::size_t(v), 'x'); }

// Pair/value access
template<class E> auto ekey(const E& e) { if constexpr (requires { e.first; }) return raw(e.first); else return raw(e); }
template<class E> auto eval(const E& e) { if constexpr (requires { e.first; }) return elem::val(e.second); else return 0; }

using L = std::vector<std::pair<int, int>>;
template<class C> L list(C& c) { L r; for (auto& e : c) r.push_back({ekey(e), eval(e)}); return r; }

template<class C, class R, class K, bool map, bool multi> struct Run {
    mc::Ctx& x;
    C c;
    R m;
    int next = 10;
    const int nk = x.thorough ? 4 : 3;

    explicit Run(mc::Ctx& x) : x(x) { }

    void check(const char* what)
    {
        L a = list(c), b = list(m);
        MC_CHECK(x, a == b, what, ": contents differ");
        MC_CHECK(x, c.size() == m.size() && c.empty() == m.empty() && c.capacity() >= c.size(), what, ": size");
        MC_CHECK(x, c.end() - c.begin() == std::ptrdiff_t(m.size()) && c.cend() - c.cbegin() == std::ptrdiff_t(m.size()), what);
        { L r; for (auto i = c.rbegin(); i != c.rend(); ++i) r.push_back({ekey(*i), eval(*i)}); std::reverse(r.begin(), r.end()); MC_CHECK(x, r == b, what, ": reverse iteration"); }
        const C& cc = c;
        for (int v = 0; v <= nk; ++v) {
            K k = mk<K>(v);
            auto off = [&](auto i) { return std::distance(m.begin(), i); };
            MC_CHECK(x, c.contains(k) == (m.count(k) > 0) && c.count(k) == m.count(k), what, ": count of ", v);
            MC_CHECK(x, c.lower_bound(k) - c.begin() == off(m.lower_bound(k)) && cc.lower_bound(k) == c.lower_bound(k), what, ": lower_bound of ", v);
            MC_CHECK(x, c.upper_bound(k) - c.begin() == off(m.upper_bound(k)) && cc.upper_bound(k) == c.upper_bound(k), what, ": upper_bound of ", v);
            auto p = c.equal_range(k);
            MC_CHECK(x, p.first == c.lower_bound(k) && p.second == c.upper_bound(k), what, ": equal_range of ", v);
            auto q = cc.equal_range(k);
            MC_CHECK(x, q.first == p.first && q.second == p.second, what, ": equal_range of ", v);
            auto f = c.find(k);
            if (m.count(k) == 0) MC_CHECK(x, f == c.end() && cc.find(k) == c.end(), what, ": find of ", v);
            else MC_CHECK(x, f >= p.first && f < p.second && cc.find(k) >= p.first && cc.find(k) < p.second, what, ": find of ", v);
            if constexpr (map && !multi) {
                int r = -7, s = -7; bool thrown = false;
                try { r = elem::val(c.at(k)); s = elem::val(cc.at(k)); } catch (std::out_of_range&) { thrown = true; }
                auto i = m.find(k);
                MC_CHECK(x, thrown == (i == m.end()), what, ": at");
                if (!thrown) MC_CHECK(x, r == elem::val(i->second) && s == r, what, ": at");
            }
        }
    }

    void op()
    {
        int o = x.choose(9);
        int v = next++;
        auto key = [&] { return x.choose(nk + (std::is_same_v<K, Key> ? 2 : 0)) ; };
        auto K2 = [&](int i) { return mk<K>(std::is_same_v<K, Key> && i >= nk ? (i - nk) + 8 : i); };
        auto ins = [&](auto r, auto e, int n) {
            if constexpr (multi) { MC_CHECK(x, n == std::distance(m.begin(), e), "insert: position"); (void)r; }
            else { MC_CHECK(x, r.second == e.second, "insert: flag"); MC_CHECK(x, r.first - c.begin() == std::distance(m.begin(), e.first), "insert: position"); }
        };
        auto idx = [&](auto r) { if constexpr (multi) return int(r - c.begin()); else return int(r.first - c.begin()); };
        switch (o) {
            case 0: { int k = key(); MC_TRACE(x, "insert const& ", k);
                if constexpr (map) { const typename C::value_type e(K2(k), v); auto r = c.insert(e); ins(r, m.insert({K2(k), v}), idx(r)); }
                else { const K e = K2(k); auto r = c.insert(e); ins(r, m.insert(e), idx(r)); } } break;
            case 1: { int k = key(); MC_TRACE(x, "insert && ", k);
                if constexpr (map) { auto r = c.insert(typename C::value_type(K2(k), v)); ins(r, m.insert({K2(k), v}), idx(r)); }
                else { auto r = c.insert(K2(k)); ins(r, m.insert(K2(k)), idx(r)); } } break;
            case 2: { int k = key(); MC_TRACE(x, "emplace ", k);
                if constexpr (map) { auto r = c.emplace(K2(k), v); ins(r, m.emplace(K2(k), v), idx(r)); }
                else { auto r = c.emplace(K2(k)); ins(r, m.emplace(K2(k)), idx(r)); } } break;
            case 3: if constexpr (map && !multi) { int k = key(); MC_TRACE(x, "[] ", k); bool as = x.choose(2); if (as) { c[K2(k)] = v; m[K2(k)] = v; } else { int r = elem::val(c[K2(k)]), e = elem::val(m[K2(k)]); MC_CHECK(x, r == e, "operator[]"); } } else x.prune(); break;
            case 4: { int k = key(); MC_TRACE(x, "erase ", k); auto r = c.erase(K2(k)); auto e = m.erase(K2(k)); MC_CHECK(x, r == e, "erase: count ", r, ", expected ", e); } break;
            case 5: { auto cap = c.capacity(); MC_TRACE(x, "clear"); c.clear(); m.clear(); MC_CHECK(x, c.capacity() == cap); } break;
            case 6: { int n = x.choose(2) * 3; MC_TRACE(x, "reserve ", n); if (n) c.reserve_extra(3); else c.shrink_to_fit(); if (n) MC_CHECK(x, c.capacity() >= c.size() + 3); } break;
            case 7: { int a = key(), b = x.choose(nk); MC_TRACE(x, "insert range ", a, ",", b, ",", a);
                if constexpr (map) { std::vector<typename C::value_type> l; l.reserve(3); l.emplace_back(K2(a), v); l.emplace_back(K2(b), v + 1000); l.emplace_back(K2(a), v + 2000); c.insert(l.begin(), l.end()); m.insert({K2(a), v}); m.insert({K2(b), v + 1000}); m.insert({K2(a), v + 2000}); }
                else { std::vector<K> l{K2(a), K2(b), K2(a)}; c.insert(l.begin(), l.end()); m.insert(l.begin(), l.end()); } } break;
            case 8: { int s = x.choose(2); MC_TRACE(x, s ? "move" : "init list");
                if (s) { C d(std::move(c)); check_moved(d); c = std::move(d); }
                else if constexpr (!map) { c = C({K2(2), K2(1), K2(2)}); m = R({K2(2), K2(1), K2(2)}); }
                else { c = C({{K2(2), v}, {K2(1), v}, {K2(2), v + 1}}); m.clear(); m.insert({K2(2), v}); m.insert({K2(1), v}); m.insert({K2(2), v + 1}); } } break;
        }
        x.step();
        check("after operation");
        uint64_t h = c.capacity();
        for (auto& e : list(m)) h = mc::mix(h, uint64_t(e.first));
        x.state(h);
    }
    void check_moved(C& d) { MC_CHECK(x, list(d) == list(m) && c.empty() && c.begin() == c.end(), "move"); }

    void go(int depth)
    {
        for (int i = 0; i < depth; ++i) {
            op();
            if (i == 1) x.shard_point();
        }
        x.outcome(c.size());
    }
};

template<class K> struct MLess { bool operator()(const K& a, const K& b) const { return a < b; } };

mc::Scenario s1("map_int", 64, [](mc::Ctx& x) { Run<core::FlatMap<int, int>, std::map<int, int>, int, true, false>(x).go(x.thorough ? 5 : 4); });
mc::Scenario s2("map_key_static", 64, [](mc::Ctx& x) { Run<core::FlatMap<Key, int, 2>, std::map<Key, int>, Key, true, false>(x).go(x.thorough ? 4 : 3); });
mc::Scenario s3("set_string", 64, [](mc::Ctx& x) { Run<core::FlatSet<std::string>, std::set<std::string>, std::string, false, false>(x).go(x.thorough ? 5 : 4); });
mc::Scenario s3b("set_key_static", 64, [](mc::Ctx& x) { Run<core::FlatSet<Key, 2>, std::set<Key>, Key, false, false>(x).go(x.thorough ? 4 : 3); });
mc::Scenario s4("multimap_int", 64, [](mc::Ctx& x) { Run<core::FlatMultimap<int, int>, std::multimap<int, int>, int, true, true>(x).go(x.thorough ? 5 : 4); });
mc::Scenario s4b("multimap_key", 64, [](mc::Ctx& x) { Run<core::FlatMultimap<Key, int, 1>, std::multimap<Key, int>, Key, true, true>(x).go(x.thorough ? 4 : 3); });
mc::Scenario s5("multiset_int", 64, [](mc::Ctx& x) { Run<core::FlatMultiset<int>, std::multiset<int>, int, false, true>(x).go(x.thorough ? 5 : 4); });
mc::Scenario s5b("multiset_key", 64, [](mc::Ctx& x) { Run<core::FlatMultiset<Key, 1>, std::multiset<Key>, Key, false, true>(x).go(x.thorough ? 4 : 3); });

// Every sorted content of up to 9 keys (with multiplicities), all lookups
mc::Scenario s6("lookups", 64, [](mc::Ctx& x) {
    Run<core::FlatMultiset<int>, std::multiset<int>, int, false, true> r(x);
    int n = x.choose(4) + 5;
    x.shard_point();
    for (int k = 0; k < 4; ++k) { int c = x.choose(4); if (int(r.m.size()) + c > n) x.prune(); for (int i = 0; i < c; ++i) { r.m.insert(k); r.c.insert(k); } }
    r.check("lookups");
    x.step();
});

// Values with instrumented elements: nothing leaks, nothing is destroyed twice, failure leaves map unchanged
mc::Scenario s7("instrumented_values", 64, [](mc::Ctx& x) {
    reg.reset();
    {
        core::FlatMap<int, elem::El<0>> c;
        std::map<int, int> m;
        for (int i = 0; i < 4; ++i) {
            int o = x.choose(4), k = o == 3 ? 0 : x.choose(3);
            if (i == 1) x.shard_point();
            MC_TRACE(x, o == 0 ? "insert " : o == 1 ? "[] " : o == 2 ? "erase " : "clear ", k);
            try {
                if (o == 0) { core::Pair<const int, elem::El<0>> e(k, i); reg.armed = true; c.insert(e); reg.armed = false; m.insert({k, i}); }
                else if (o == 1) { reg.armed = true; auto& r = c[k]; reg.armed = false; if (!m.count(k)) m[k] = -1; MC_CHECK(x, elem::val(r) == m[k]); }
                else if (o == 2) { reg.armed = true; auto n = c.erase(k); reg.armed = false; MC_CHECK(x, n == m.erase(k)); }
                else { c.clear(); m.clear(); }
            }
            catch (elem::Thrown&) { reg.armed = false; }
            x.step();
            MC_CHECK(x, c.size() == m.size());
            auto j = m.begin();
            for (auto& e : c) { MC_CHECK(x, e.first == j->first && elem::val(e.second) == j->second); ++j; }
            MC_CHECK(x, reg.live.size() == m.size(), "leak");
            x.state(mc::mix(c.size(), c.capacity()));
        }
    }
    MC_CHECK(x, reg.live.empty(), "leak");
});

} // namespace
