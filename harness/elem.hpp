// Instrumented element types: every construction, destruction and access is checked against a registry of live objects,
// and construction can be made to fail at any point chosen by the explorer.
#pragma once
#include "mc.hpp"
#include <cstddef>
#include <iterator>
#include <vector>

namespace elem {

struct Thrown {};

struct Registry {
    // open addressing set of live addresses; small
    std::vector<const void*> live;
    bool armed = false;        // element operations may throw
    long constructions = 0, destructions = 0;
    void reset() { live.clear(); armed = false; constructions = destructions = 0; }
    bool has(const void* p) const { for (auto q : live) if (q == p) return true; return false; }
    void add(const void* p)
    {
        if (has(p)) mc::current()->fail(mc::str("element constructed on top of a live element"));
        live.push_back(p); ++constructions;
    }
    void del(const void* p)
    {
        for (auto& q : live) if (q == p) { q = live.back(); live.pop_back(); ++destructions; return; }
        mc::current()->fail("element destroyed that is not alive");
    }
    void need(const void* p, const char* what) const { if (!has(p)) mc::current()->fail(mc::str("access of element that is not alive: ", what)); }
    void maybe_throw() { if (armed && mc::current()->deviate(2) == 1) throw Thrown(); }
};
inline Registry reg;

// K = 0: non-throwing move; K = 1: copyable, and moving may throw; K = 2: only movable (non-throwing)
template<int K> struct El {
    int v;
    El() { reg.maybe_throw(); v = -1; reg.add(this); }
    El(int w) { reg.maybe_throw(); v = w; reg.add(this); }
    El(const El& o) requires (K != 2) { reg.need(&o, "copy"); reg.maybe_throw(); v = o.v; reg.add(this); }
    El(El&& o) noexcept(K != 1) { reg.need(&o, "move"); if constexpr (K == 1) reg.maybe_throw(); v = o.v; if (K != 1) o.v = -99; reg.add(this); }
    El& operator=(const El& o) requires (K != 2) { reg.need(this, "assign to"); reg.need(&o, "assign from"); reg.maybe_throw(); v = o.v; return *this; }
    El& operator=(El&& o) noexcept { reg.need(this, "assign to"); reg.need(&o, "assign from"); v = o.v; return *this; }
    ~El() { reg.del(this); }
    bool operator==(const El& o) const { return v == o.v; }
    bool operator<(const El& o) const { return v < o.v; }
};
template<int K> int val(const El<K>& e) { reg.need(&e, "read"); return e.v; }
inline int val(int v) { return v; }

template<class T> inline constexpr bool instrumented = !std::is_same_v<T, int>;

// Single pass input iterator over ints yielding T
template<class T> struct InIter {
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    const int* p = nullptr;
    T operator*() const { return T(*p); }
    InIter& operator++() { ++p; return *this; }
    InIter operator++(int) { InIter i = *this; ++p; return i; }
    bool operator==(const InIter& o) const { return p == o.p; }
    bool operator!=(const InIter& o) const { return p != o.p; }
};

} // namespace elem
