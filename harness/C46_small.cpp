// C46: small utilities against reference models
#include <mc.hpp>
#include <algorithm>
#include <cmath>
#include <limits>
#include <locale>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/algorithm.hpp>
#include <archon/core/span.hpp>
#include <archon/core/index_iterator.hpp>
#include <archon/core/stride_iterator.hpp>
#include <archon/core/proxy_iterator.hpp>
#include <archon/core/range_map.hpp>
#include <archon/core/frozen_sets.hpp>
#include <archon/core/histogram.hpp>
#include <archon/core/scope_exit.hpp>
#include <archon/core/value_reset_guard.hpp>
#include <archon/core/type_ident.hpp>
#include <archon/core/typed_object_registry.hpp>
#include <archon/core/index_range.hpp>
#include <archon/core/utility.hpp>
#include <archon/core/math.hpp>
#include <archon/core/char_mapper.hpp>
#include <archon/core/basic_character_set.hpp>
#include <archon/core/string.hpp>

using namespace archon;
static std::uint64_t oc(const char* s) { return mc::hash_str(s); }

// ---------------------------------------------------------------- RangeMap
template<class K> void range_map(mc::Ctx& x, std::vector<K> keys, int len)
{
    using Map = core::RangeMap<K, int>;
    Map map; std::map<int, int> ref; std::string hist;
    int n = int(keys.size());
    bool defragged = false;
    for (int step = 0; step < len; ++step) {
        int op = x.choose(step == 0 ? 2 : 4);
        defragged = false;
        if (op < 2) {
            int a = x.choose(n), b = a + x.choose(n - a);
            if (step == 0) x.shard_point();
            int v = step + 1;
            MC_TRACE(x, op == 0 ? "assign " : "update ", a, "..", b, "; ");
            typename Map::range_type r { keys[a], keys[b] };
            if (op == 0) {
                int val = step % 2; // repeated values make defragmentation possible
                if (a == b) map.assign(keys[a], val); else map.assign(r, val);
                for (int k = int(keys[a]); k <= int(keys[b]); ++k) ref[k] = val;
            }
            else {
                auto f = [&](int& t) { t = t * 10 + v; };
                if (a == b) map.update(keys[a], f); else map.update(r, f);
                for (int k = int(keys[a]); k <= int(keys[b]); ++k) { int& t = ref[k]; t = t * 10 + v; }
            }
        }
        else if (op == 2) { map.defrag(); defragged = true; }
        else { map.defrag([](int a, int b) { return a % 2 == b % 2; }); // coarser equality: the first value wins
            bool have = false; int prev = 0, val = 0;
            for (auto& [k, t] : ref) { if (have && k == prev + 1 && t % 2 == val % 2) t = val; else val = t; prev = k; have = true; }
        }
        x.step();
        std::map<int, int> got; std::vector<std::tuple<int, int, int>> rs;
        for (auto i = map.begin(); i != map.end(); ++i) {
            auto e = *i; auto r = e.range();
            MC_CHECK(x, r.first <= r.last, "empty range in map");
            MC_CHECK(x, rs.empty() || std::get<1>(rs.back()) < int(r.first), "ranges overlap or are out of order: ", int(r.first), "..", int(r.last));
            rs.push_back({ int(r.first), int(r.last), e.value() });
            for (int k = int(r.first); k <= int(r.last); ++k) got[k] = e.value();
        }
        std::string s; for (auto& [k, v] : got) s += mc::str(k, ":", v, " ");
        std::string w; for (auto& [k, v] : ref) w += mc::str(k, ":", v, " ");
        MC_CHECK(x, got == ref, "range map has ", s, " expected ", w);
        if (defragged) for (std::size_t i = 1; i < rs.size(); ++i)
            MC_CHECK(x, std::get<1>(rs[i - 1]) + 1 < std::get<0>(rs[i]) || std::get<2>(rs[i - 1]) != std::get<2>(rs[i]), "adjacent ranges of equal value after defrag()");
        std::uint64_t h = 1; for (auto& [a, b, c] : rs) h = mc::mix(h, mc::mix(a, mc::mix(b, c)));
        x.state(h);
    }
    x.outcome(oc("range map"));
}
// note on coarse defrag: an update of fragments of one value may have left ranges that are equal; merging only concerns adjacent ranges
static mc::Scenario s_range("range-map", 8, [](mc::Ctx& x) {
    int kind = x.choose(3);
    int len = x.thorough ? 4 : 3;
    switch (kind) {
        case 0: range_map<int>(x, { 0, 1, 2, 3, 4, 5 }, len); break;
        case 1: range_map<unsigned char>(x, { 0, 1, 2, 253, 254, 255 }, len); break;
        case 2: range_map<signed char>(x, { -128, -127, 0, 1, 126, 127 }, len); break;
    }
});

// ---------------------------------------------------------------- FrozenSets
struct Desc { bool operator()(int a, int b) const noexcept { return a > b; } };
template<class C> void frozen(mc::Ctx& x, int len)
{
    using FS = core::FrozenSets<int, C>;
    FS fs; using Ident = typename FS::Ident;
    struct Entry { Ident id; std::set<int, C> ref; };
    std::vector<Entry> live; live.push_back({ Ident(), {} }); // the default identifier is the empty set
    static const std::vector<std::vector<int>> lists = { {}, { 1 }, { 2, 1 }, { 3, 1, 2, 1 }, { 2, 2 }, { 4 } };
    auto check = [&] {
        std::uint64_t h = 0;
        for (std::size_t k = 0; k < live.size(); ++k) {
            auto span = fs[live[k].id];
            std::vector<int> got(span.begin(), span.end()), want(live[k].ref.begin(), live[k].ref.end());
            std::string s; for (int v : got) s += mc::str(v, " "); std::string w; for (int v : want) w += mc::str(v, " ");
            MC_CHECK(x, got == want && live[k].id.size() == want.size() && live[k].id.empty() == want.empty(), "set ", k, " is { ", s, "} expected { ", w, "}");
            for (int v : got) h = mc::mix(h, v); h = mc::mix(h, 77);
        }
        x.state(h);
    };
    for (int step = 0; step < len; ++step) {
        int op = x.choose(step == 0 ? 4 : 9);
        if (step == 1) x.shard_point();
        x.step();
        auto list = [&]() -> const std::vector<int>& { return x.pick(lists); };
        auto any = [&]() -> Entry { return live[x.choose(int(live.size()))]; };
        switch (op) {
            case 0: { auto& l = list(); live.push_back({ fs.freeze_unordered(core::Span<const int>(l.data(), l.size())), std::set<int, C>(l.begin(), l.end()) }); MC_TRACE(x, "freeze list; "); break; }
            case 1: { int v = x.range(1, 3); live.push_back({ fs.freeze(v), { v } }); MC_TRACE(x, "freeze ", v, "; "); break; }
            case 2: { auto& l = list(); std::set<int, C> s(l.begin(), l.end()); live.push_back({ fs.freeze_ordered(s.begin(), s.end()), s }); MC_TRACE(x, "freeze ordered; "); break; }
            case 3: { auto& l = list(); std::set<int> s(l.begin(), l.end()); live.push_back({ fs.freeze(s), std::set<int, C>(l.begin(), l.end()) }); MC_TRACE(x, "freeze std::set; "); break; }
            case 4: { Entry a = any(), b = any(); MC_TRACE(x, "unite sets; "); Ident id = fs.unite(a.id, b.id); auto s = a.ref; s.insert(b.ref.begin(), b.ref.end()); live.push_back({ id, s }); break; }
            case 5: { Entry a = any(); int v = x.range(1, 4); MC_TRACE(x, "unite with ", v, "; "); Ident id = fs.unite(a.id, v); auto s = a.ref; s.insert(v); live.push_back({ id, s }); break; }
            case 6: { Entry a = any(); auto& l = list(); MC_TRACE(x, "unite_unordered; "); Ident id = fs.unite_unordered(a.id, core::Span<const int>(l.data(), l.size())); auto s = a.ref; s.insert(l.begin(), l.end()); live.push_back({ id, s }); break; }
            case 7: { Entry a = any(); auto& l = list(); std::set<int> t(l.begin(), l.end()); MC_TRACE(x, "unite std::set; "); Ident id = fs.unite(a.id, t); auto s = a.ref; s.insert(l.begin(), l.end()); live.push_back({ id, s }); break; }
            case 8: {
                if (x.choose(2)) { MC_TRACE(x, "clear; "); fs.clear(); live.resize(1); }
                else {
                    // discard the set made last, if made by a freeze of its own
                    MC_TRACE(x, "discard last; ");
                    if (live.size() < 2) x.prune();
                    Entry e = live.back();
                    // only sets known to occupy fresh storage: freeze a new one and discard from it
                    int v = 3; Ident id = fs.freeze(v); fs.discard_from(id);
                }
                break;
            }
        }
        check();
    }
    x.outcome(oc("frozen sets"));
}
static mc::Scenario s_frozen("frozen-sets", 4, [](mc::Ctx& x) {
    int k = x.choose(2);
    int len = x.thorough ? 4 : 3;
    if (k == 0) frozen<std::less<int>>(x, len); else frozen<Desc>(x, len);
});
// A failing iterator leaves all sets as they were
struct ThrowIter {
    using iterator_category = std::forward_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = const int&;
    const int* p; int* budget;
    reference operator*() const { if ((*budget)-- == 0) throw std::runtime_error("iterator"); return *p; }
    ThrowIter& operator++() { ++p; return *this; }
    ThrowIter operator++(int) { auto q = *this; ++p; return q; }
    bool operator==(const ThrowIter& o) const { return p == o.p; } bool operator!=(const ThrowIter& o) const { return p != o.p; }
};
static mc::Scenario s_frozen_ex("frozen-sets-failure", 1, [](mc::Ctx& x) {
    core::FrozenSets<int> fs; auto a = fs.freeze_unordered({ 5, 1, 3 }); auto b = fs.freeze(3);
    static const int data[] = { 2, 3, 4, 6 };
    int budget = x.choose(12), op = x.choose(4);
    ThrowIter i { data, &budget }, e { data + 4, &budget };
    bool thrown = false; core::FrozenSets<int>::Ident c;
    try {
        switch (op) { case 0: c = fs.freeze_unordered(i, e); break; case 1: c = fs.freeze_ordered(i, e); break; case 2: c = fs.unite_ordered(a, i, e); break; case 3: c = fs.unite_unordered(a, i, e); break; }
    } catch (std::runtime_error&) { thrown = true; }
    auto str = [&](auto id) { std::string s; for (int v : fs[id]) s += std::to_string(v); return s; };
    MC_CHECK(x, str(a) == "135" && str(b) == "3", "sets changed: ", str(a), ", ", str(b));
    if (!thrown) MC_CHECK(x, str(c) == (op < 2 ? "2346" : "123456"), "result is ", str(c));
    auto d = fs.freeze(9);
    MC_CHECK(x, str(a) == "135" && str(b) == "3" && str(d) == "9", "sets changed after failure: ", str(a), ", ", str(b), ", ", str(d));
    x.outcome(oc(thrown ? "thrown" : "ok")); x.state(budget * 4 + op);
});

// ---------------------------------------------------------------- iterators and spans
template<class It, class F> void random_access(mc::Ctx& x, It base, int n, F value, const char* name)
{
    // positions -1..n are only compared, 0..n-1 are dereferenced
    for (int i = 0; i < n; ++i) {
        It a = base + i;
        x.state(mc::mix(oc(name), i * 64 + n));
        for (int j = 0; j < n; ++j) {
            It b = base; b += j; x.eval();
            MC_CHECK(x, (a - b) == i - j, name, ": difference of positions ", i, " and ", j, " is ", (a - b));
            MC_CHECK(x, (a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), name, ": comparison of ", i, " and ", j);
            It c = a; c += (j - i); MC_CHECK(x, c == b && value(*c) == j, name, ": += ", j - i, " from ", i);
            It d = a; d -= (i - j); MC_CHECK(x, d == b && value(*d) == j, name, ": -= ", i - j, " from ", i);
            MC_CHECK(x, (a + (j - i)) == b && (a - (i - j)) == b && ((j - i) + a) == b, name, ": + from ", i, " to ", j);
            MC_CHECK(x, value(a[j - i]) == j, name, ": subscript ", j - i, " at ", i);
        }
        if (i + 1 < n) {
            It b = a; It& r = ++b; MC_CHECK(x, &r == &b && value(*b) == i + 1, name, ": ++ at ", i);
            It c = a; It d = c++; MC_CHECK(x, d == a && value(*c) == i + 1, name, ": post ++ at ", i);
        }
        if (i > 0) {
            It b = a; It& r = --b; MC_CHECK(x, &r == &b && value(*b) == i - 1, name, ": -- at ", i);
            It c = a; It d = c--; MC_CHECK(x, d == a && value(*c) == i - 1, name, ": post -- at ", i);
        }
    }
    x.outcome(oc(name));
}
struct Sq { int v; Sq(int q) : v(q) {} };
static mc::Scenario s_iter("iterators", 1, [](mc::Ctx& x) {
    int n = x.range(1, 7), kind = x.choose(6);
    std::vector<int> v(64); for (int i = 0; i < 64; ++i) v[i] = i;
    auto id = [](int q) { return q; };
    switch (kind) {
        case 0: random_access(x, core::IndexIterator<std::vector<int>>(v, 0), n, id, "IndexIterator"); break;
        case 1: random_access(x, core::StrideIterator<std::vector<int>::iterator, 1>(v.begin()), n, id, "StrideIterator<1>"); break;
        case 2: random_access(x, core::StrideIterator<int*, 2>(v.data()), n, [](int q) { return q % 2 == 0 ? q / 2 : -9; }, "StrideIterator<2>"); break;
        case 3: random_access(x, core::StrideIterator<std::vector<int>::const_iterator, 3>(v.cbegin()), n, [](int q) { return q % 3 == 0 ? q / 3 : -9; }, "StrideIterator<3>"); break;
        case 4: random_access(x, core::StrideIterator<std::vector<int>::iterator, 8>(v.begin()), n, [](int q) { return q % 8 == 0 ? q / 8 : -9; }, "StrideIterator<8>"); break;
        case 5: random_access(x, core::ProxyIterator<std::vector<int>::iterator, Sq>(v.begin()), n, [](Sq q) { return q.v; }, "ProxyIterator"); break;
    }
    // standard algorithms over strides
    if (kind == 2) {
        auto b = core::StrideIterator<int*, 2>(v.data()), e = b + n;
        MC_CHECK(x, std::distance(b, e) == n, "distance"); std::reverse(b, e);
        for (int i = 0; i < 64; ++i) { int want = i % 2 == 0 && i < 2 * n ? 2 * (n - 1) - i : i; MC_CHECK(x, v[i] == want, "reverse over a stride put ", v[i], " at ", i, " expected ", want); }
    }
});
static mc::Scenario s_span("spans", 1, [](mc::Ctx& x) {
    int n = x.choose(6);
    std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = 10 + i;
    core::Span<int> s(v); core::Span<const int> c(s), p(v.data(), v.data() + n);
    auto same = [&](core::Span<const int> q, int off, int len) { x.eval(); if (int(q.size()) != len || q.empty() != (len == 0)) return false; for (int i = 0; i < len; ++i) if (q[i] != 10 + off + i) return false; return std::vector<int>(q.begin(), q.end()) == std::vector<int>(v.begin() + off, v.begin() + off + len); };
    MC_CHECK(x, same(s, 0, n) && same(c, 0, n) && same(p, 0, n), "construction");
    std::vector<int> r(c.rbegin(), c.rend()); std::reverse(r.begin(), r.end()); MC_CHECK(x, r == v, "reverse iteration");
    for (int i = 0; i <= n; ++i) {
        MC_CHECK(x, same(s.first(i), 0, i) && same(s.last(i), n - i, i) && same(s.subspan(i), i, n - i), "first/last/subspan of ", i);
        for (int j = 0; j <= n - i; ++j) { MC_CHECK(x, same(s.subspan(i, j), i, j), "subspan ", i, " ", j); core::IndexRange ir { std::size_t(i), std::size_t(j) }; MC_CHECK(x, same(ir.resolve(v.data()), i, j), "IndexRange"); }
    }
    if (n) MC_CHECK(x, &s.front() == &v.front() && &s.back() == &v.back(), "front and back");
    x.outcome(oc("span")); x.state(n);
});

// ---------------------------------------------------------------- stable sort
static mc::Scenario s_sort("stable-sort", 1, [](mc::Ctx& x) {
    int n = x.choose(x.thorough ? 9 : 7);
    std::vector<std::pair<int, int>> v; for (int i = 0; i < n; ++i) v.push_back({ x.choose(4), i });
    auto w = v; bool desc = x.choose(2);
    auto cmp = [&](auto& a, auto& b) { return desc ? a.first > b.first : a.first < b.first; };
    core::stable_sort(v.begin(), v.end(), cmp); std::stable_sort(w.begin(), w.end(), cmp);
    x.eval(); std::string s; for (auto& q : v) s += mc::str(q.first, "/", q.second, " ");
    MC_CHECK(x, v == w, "stable_sort gives ", s);
    x.state(mc::hash_str(s)); x.outcome(oc("sorted"));
});

// ---------------------------------------------------------------- histogram
static mc::Scenario s_hist("histogram", 4, [](mc::Ctx& x) {
    int bins = x.range(1, 4); int wi = x.choose(4); bool uo = x.choose(2); bool wide = x.choose(2);
    x.shard_point();
    static const int widths[] = { 60, 80, 1, 41 }; int width = widths[wi];
    double from = x.choose(2) ? 0 : -2, to = from + bins; // bins of width one
    core::Histogram<double> h(from, to, std::size_t(bins));
    std::vector<long> cnt(bins); long under = 0, over = 0;
    int n = x.choose(x.thorough ? 5 : 4);
    for (int i = 0; i < n; ++i) {
        int c = x.choose(2 * bins + 7); double v;
        int k = -1;
        if (c < 2 * bins) { k = c / 2; v = from + k + (c % 2 ? 0.5 : 0); }
        else switch (c - 2 * bins) {
            case 0: v = from - 1; break; case 1: v = -1e300; break; case 2: v = -std::numeric_limits<double>::infinity(); break;
            case 3: v = to; break; case 4: v = to + 1; break; case 5: v = 1e19; break; default: v = std::numeric_limits<double>::infinity(); break;
        }
        int reps = i == 0 ? 3 : 1;
        for (int q = 0; q < reps; ++q) { h.add(v); if (k >= 0) ++cnt[k]; else if (v < from) ++under; else ++over; }
    }
    std::string text;
    if (wide) { std::wostringstream o; h.print(o, width, uo); for (wchar_t c : o.str()) text += char(c); } else { std::ostringstream o; h.print(o, width, uo); text = o.str(); }
    MC_TRACE(x, "\n", text);
    std::vector<long> want; if (uo) want.push_back(under); want.insert(want.end(), cnt.begin(), cnt.end()); if (uo) want.push_back(over);
    long mx = std::max(under, over); for (long c : cnt) mx = std::max(mx, c);
    std::istringstream in(text); std::string line; std::size_t row = 0; std::size_t size = 0; 
    while (std::getline(in, line)) {
        MC_CHECK(x, row < want.size(), "too many rows");
        auto a = line.find(" -> "), b = line.find(" : "), c = line.find(" |");
        MC_CHECK(x, a != line.npos && b != line.npos && c != line.npos && line.back() == '|', "malformed row ", line);
        MC_CHECK(x, std::stol(line.substr(b + 3, c - b - 3)) == want[row], "row ", row, " says ", line, " expected count ", want[row]);
        std::string bar = line.substr(c + 2, line.size() - c - 3);
        if (row == 0) size = line.size();
        MC_CHECK(x, line.size() == size, "rows of different sizes: ", line);
        std::size_t room = bar.size(), hashes = std::size_t(std::count(bar.begin(), bar.end(), '#'));
        MC_CHECK(x, bar == std::string(hashes, '#') + std::string(room - hashes, ' '), "bar is ", bar);
        double ideal = mx ? double(want[row]) * double(room) / double(mx) : 0;
        MC_CHECK(x, std::abs(double(hashes) - ideal) <= 0.5 + 1e-9, "bar of ", hashes, " for count ", want[row], " of ", mx, " with room for ", room);
        auto value = [&](double v) { std::ostringstream o; if ((uo ? -std::numeric_limits<double>::infinity() : from) < 0) o << std::showpos; o << v; return o.str(); };
        double lo = uo && row == 0 ? -INFINITY : from + double(row) - (uo ? 1 : 0), hi = uo && row + 1 == want.size() ? INFINITY : lo + 1;
        if (uo && row == 0) hi = from;
        auto strip = [](std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; };
        MC_CHECK(x, strip(line.substr(0, a)) == value(lo) && strip(line.substr(a + 4, b - a - 4)) == value(hi), "limits of row ", row, ": ", line);
        ++row;
    }
    MC_CHECK(x, row == want.size(), "histogram has ", row, " rows");
    if (width >= 40) MC_CHECK(x, size == std::size_t(width), "rows have ", size, " characters, not ", width);
    x.eval(); x.state(mc::hash_str(text)); x.outcome(oc(mx ? "nonempty" : "empty"));
});

// ---------------------------------------------------------------- guards and registry
static mc::Scenario s_guard("guards", 1, [](mc::Ctx& x) {
    int kind = x.choose(4); bool by_exception = x.choose(2), release = x.choose(2);
    std::vector<int> log; int var = 1;
    try {
        switch (kind) {
            case 0: {
                auto f = [&]() noexcept { log.push_back(1); };
                core::ScopeExit a(f); core::ScopeExit b([&]() noexcept { log.push_back(2); });
                if (release) a.release();
                log.push_back(0);
                if (by_exception) throw 1;
                break;
            }
            case 1: { ARCHON_SCOPE_EXIT { log.push_back(1); };
                ARCHON_SCOPE_EXIT { log.push_back(2); }; log.push_back(0); if (by_exception) throw 1; break; }
            case 2: { auto g = core::make_value_reset_guard(var, 7); var = 3; if (release) { auto h = std::move(g); log.push_back(var); var = 4; } log.push_back(var); if (release) var = 5; if (by_exception) throw 1; break; }
            case 3: { auto g = core::make_temp_assign(var, 8, 9); log.push_back(var); { auto g2 = core::make_temp_assign(var, 2); log.push_back(var); } log.push_back(var); if (by_exception) throw 1; break; }
        }
    } catch (int) { log.push_back(99); }
    std::vector<int> want;
    switch (kind) {
        case 0: want = release ? std::vector<int> { 0, 2 } : std::vector<int> { 0, 2, 1 }; break;
        case 1: want = { 0, 2, 1 }; break;
        case 2: want = release ? std::vector<int> { 3, 7 } : std::vector<int> { 3 }; MC_CHECK(x, var == (release ? 5 : 7), "value after guard is ", var); break;
        case 3: want = { 8, 2, 0 }; MC_CHECK(x, var == 9, "value after guard is ", var); break;
    }
    if (by_exception) want.push_back(99);
    std::string s; for (int v : log) s += mc::str(v, " ");
    MC_CHECK(x, log == want, "guard ", kind, " events: ", s);
    x.eval(); x.state(kind * 4 + by_exception * 2 + release); x.outcome(oc("guard"));
});
struct Base { virtual ~Base() = default; }; struct Other { int pad[3]; virtual ~Other() = default; };
template<int N> struct Obj : Other, Base { int id = N; };
template<std::size_t N> void registry(mc::Ctx& x)
{
    core::TypedObjectRegistry<Base, N> reg;
    Obj<0> a0, b0; Obj<1> a1, b1; Obj<2> a2, b2;
    void* want[3] = {};
    int len = x.range(1, 4);
    for (int i = 0; i < len; ++i) {
        int op = x.choose(6); x.step();
        switch (op) {
            case 0: reg.register_(a0); want[0] = &a0; break; case 1: reg.register_(b0); want[0] = &b0; break;
            case 2: reg.register_(a1); want[1] = &a1; break; case 3: reg.register_(b1); want[1] = &b1; break;
            case 4: reg.register_(a2); want[2] = &a2; break; case 5: reg.register_(b2); want[2] = &b2; break;
        }
        MC_CHECK(x, reg.template get<Obj<0>>() == want[0] && reg.template get<Obj<1>>() == want[1] && reg.template get<Obj<2>>() == want[2], "registry returns the wrong object");
        MC_CHECK(x, reg.template get<const Obj<1>>() == want[1], "registry distinguishes const");
        x.state(mc::mix((want[0] != nullptr) + 2 * (want[1] != nullptr) + 4 * (want[2] != nullptr), op));
    }
    x.outcome(oc("registry"));
}
static mc::Scenario s_reg("typed-registry", 1, [](mc::Ctx& x) { switch (x.choose(3)) { case 0: registry<0>(x); break; case 1: registry<1>(x); break; case 2: registry<3>(x); break; } });
static mc::Scenario s_tid("type-ident", 1, [](mc::Ctx& x) {
    std::vector<core::type_ident_type> v = { core::get_type_ident<int>(), core::get_type_ident<long>(), core::get_type_ident<Base>(), core::get_type_ident<Obj<0>>(), core::get_type_ident<Obj<1>>(), core::get_type_ident<int*>(), core::get_type_ident<void>() };
    std::set<core::type_ident_type> s(v.begin(), v.end());
    MC_CHECK(x, s.size() == v.size(), "types share identifier"); MC_CHECK(x, !s.count(0), "zero identifier");
    MC_CHECK(x, core::get_type_ident<long>() == v[1], "identifier changes"); x.outcome(oc("ident"));
});

// ---------------------------------------------------------------- utility
static mc::Scenario s_util("utility", 1, [](mc::Ctx& x) {
    std::tuple<int, char, double, std::string> t(1, 'b', 2.5, "x");
    std::string s; core::for_each_tuple_elem(t, [&](auto& v) { std::ostringstream o; o << v << ';'; s += o.str(); });
    MC_CHECK(x, s == "1;b;2.5;x;", "for_each_tuple_elem visits ", s);
    for (int stop = 0; stop < 5; ++stop) {
        int n = 0; bool all = core::for_each_tuple_elem_a(t, [&](auto&) { return n++ != stop; });
        MC_CHECK(x, n == std::min(stop + 1, 4) && all == (stop == 4), "for_each_tuple_elem_a visits ", n, " result ", all, " stop at ", stop);
    }
    for (std::size_t i = 0; i < 4; ++i) {
        std::string q; core::with_tuple_elem(t, i, [&](auto& v) { std::ostringstream o; o << v; q = o.str(); });
        MC_CHECK(x, q == (i == 0 ? "1" : i == 1 ? "b" : i == 2 ? "2.5" : "x"), "with_tuple_elem(", i, ") gives ", q);
    }
    std::vector<int> is; core::for_each_int<int, 5>([&](auto i) { is.push_back(i); });
    MC_CHECK(x, is == (std::vector<int> { 0, 1, 2, 3, 4 }), "for_each_int");
    MC_CHECK(x, core::hetero_min(3, 2L, char(5)) == 2 && core::hetero_max(3, 2.5, 1) == 3, "hetero_min/max");
    x.outcome(oc("util"));
});

// ---------------------------------------------------------------- floating point modulus
template<class T> void fmodp(mc::Ctx& x)
{
    std::vector<T> as = { 0, 1, T(0.25), T(2.5), 3, 7, T(1e9), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon() / 4, std::nextafter(T(1), T(0)), std::nextafter(T(3), T(4)), std::numeric_limits<T>::max() };
    std::vector<T> bs = { 1, T(0.5), 3, T(2.5), T(1e-3), T(1e9), std::numeric_limits<T>::min(), std::nextafter(T(3), T(0)) };
    T a = x.pick(as); if (x.choose(2)) a = -a; T b = x.pick(bs); if (x.choose(2)) b = -b;
    T m = core::periodic_mod(a, b); x.eval();
    MC_CHECK(x, b > 0 ? m >= 0 && m < b : m <= 0 && m > b, "periodic_mod(", a, ", ", b, ") is ", m);
    T r = std::fmod(a, b); T want = (r != 0 && (r < 0) != (b < 0)) ? r + b : r;
    if (want == b) want = 0;
    MC_CHECK(x, m == want, "periodic_mod(", a, ", ", b, ") is ", m, " expected ", want);
    x.state(mc::mix(mc::hash_bytes(&a, sizeof a), mc::hash_bytes(&b, sizeof b))); x.outcome(oc("mod"));
}
static mc::Scenario s_fmod("float-modulus", 1, [](mc::Ctx& x) { switch (x.choose(2)) { case 0: fmodp<float>(x); break; case 1: fmodp<double>(x); break; } });

// ---------------------------------------------------------------- character mapping
static mc::Scenario s_bcs("basic-character-set", 1, [](mc::Ctx& x) {
    static const std::string bcs = std::string("\t\v\f\n ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_{}[]#()<>%:;.?*+-/^&|~!=,\\\"'", 96 - 1 + 1);
    for (int c = -128; c < 128; ++c) {
        char ch = char(c); char a = 'Q', b = 'Q'; bool in = c != 0 && bcs.find(ch) != bcs.npos;
        bool f = core::try_map_bcs_to_ascii(ch, a), g = core::try_map_ascii_to_bcs(ch, b); x.eval();
        MC_CHECK(x, f == in && a == (in ? ch : 'Q'), "try_map_bcs_to_ascii(", c, ") is ", f, " ", int(a));
        MC_CHECK(x, g == in && b == (in ? ch : 'Q'), "try_map_ascii_to_bcs(", c, ") is ", g, " ", int(b));
    }
    x.outcome(oc("bcs"));
});
template<class C> void mapper(mc::Ctx& x)
{
    core::BasicCharMapper<C> m(std::locale::classic());
    int n = x.choose(6); std::string s; for (int i = 0; i < n; ++i) s += char(x.pick(std::vector<int> { 'a', 0, 127 }));
    std::basic_string<C> w; for (char c : s) w += C((unsigned char)c);
    typename core::BasicCharMapper<C>::template ArraySeededWidenBuffer<3> wb; typename core::BasicCharMapper<C>::template ArraySeededNarrowBuffer<3> nb;
    for (int rep = 0; rep < 2; ++rep) {
        MC_CHECK(x, m.widen(std::string_view(s), wb) == std::basic_string_view<C>(w), "widening of ", mc::esc(s)); x.eval();
        std::string back(m.narrow(w, '?', nb)); MC_CHECK(x, back == s, "narrowing of ", mc::esc(s), " gives ", mc::esc(back));
    }
    C seed[4]; MC_CHECK(x, m.widen(s, wb, core::Span<C>(seed, 4)) == std::basic_string_view<C>(w), "widening of ", mc::esc(s), " into given memory");
    C dest[8]; m.widen(s, dest); MC_CHECK(x, std::basic_string<C>(dest, s.size()) == w, "widening to array");
    // several at once
    std::string s2 = "xyz";
    using Entry = typename core::BasicCharMapper<C>::WidenEntry;
    std::basic_string_view<C> r1, r2, r3; Entry entries[] = { { s, &r1 }, { s2, &r2 }, { s, &r3 } };
    m.widen(core::Span<Entry>(entries), wb);
    MC_CHECK(x, r1 == std::basic_string_view<C>(w) && r3 == r1 && r2.size() == 3 && r2[0] == C('x') && r2[2] == C('z'), "widening of several strings");
    x.state(mc::hash_str(s)); x.outcome(oc("mapper"));
}
static mc::Scenario s_map("char-mapper", 1, [](mc::Ctx& x) { if (x.choose(2)) mapper<wchar_t>(x); else mapper<char>(x); });
