// C20: word wrapping against exhaustive search over all ways to break the text.
#include "mc.hpp"
#include <stdexcept>
#include <vector>
#include <archon/core/assert.hpp>
#include <archon/core/word_wrap.hpp>

using namespace archon;
namespace ww = core::word_wrap;
using u128 = unsigned __int128;

namespace {

struct Input {
    std::vector<ww::Word> words;
    std::size_t trailing;
    std::vector<ww::Geometry> geom;
    std::size_t first;
};

// Width of line made of words [i, j)
u128 width(const Input& in, std::size_t i, std::size_t j)
{
    u128 w = 0;
    for (std::size_t k = i; k < j; ++k) {
        w += in.words[k].word_size;
        if (k > i || k == 0) w += in.words[k].space_size;
    }
    if (j == in.words.size()) w += in.trailing;
    return w;
}

const u128 inf = ~u128(0);

// Minimal badness of words [i, n) when the first of them starts a line described by g
u128 ref_best(const Input& in, std::size_t i, std::size_t g, std::vector<std::vector<std::pair<bool, u128>>>& memo)
{
    auto& m = memo[i][g];
    if (m.first) return m.second;
    std::size_t n = in.words.size();
    u128 best = inf;
    u128 size = in.geom[g].line_size;
    for (std::size_t j = i + 1; j <= n; ++j) {
        u128 w = width(in, i, j);
        if (w > size && j > i + 1) break; // later ones are wider (the trailing space only adds)
        u128 bad = 0;
        if (j < n) {
            u128 gap = w < size ? size - w : 0;
            if (gap > 0xFFFFFFFFu) bad = inf;
            else {
                bad = gap * gap;
                u128 rest = ref_best(in, j, in.geom[g].next_geometry_index, memo);
                bad = rest == inf ? inf : bad + rest;
            }
        }
        if (bad < best) best = bad;
    }
    m = { true, best };
    return best;
}

std::string describe(const Input& in)
{
    std::string s;
    for (auto& w : in.words) s += mc::str("(", w.space_size, ",", w.word_size, ")");
    s += mc::str(" trailing=", in.trailing, " first=", in.first, " geometry");
    for (auto& g : in.geom) s += mc::str("(", g.line_size, "->", g.next_geometry_index, ")");
    return s;
}

u128 check_breaks(mc::Ctx& x, const Input& in, const std::vector<std::size_t>& b, bool greedy)
{
    std::size_t n = in.words.size(), g = in.first, i = 0;
    u128 bad = 0;
    for (std::size_t k = 0; k <= b.size(); ++k) {
        std::size_t j = k < b.size() ? b[k] : n;
        if (n > 0) MC_CHECK(x, j > i && j <= n && (k == b.size() || j < n), "bad breakpoint ", j, " in ", describe(in));
        u128 size = in.geom[g].line_size;
        u128 w = width(in, i, j);
        MC_CHECK(x, w <= size || j - i <= 1, "line ", k, " too long in ", describe(in));
        if (j < n) {
            u128 gap = w < size ? size - w : 0;
            bad += gap * gap;
            if (greedy) MC_CHECK(x, width(in, i, j + 1) > size, "line ", k, " could have taken one more word in ", describe(in));
        }
        i = j;
        g = in.geom[g].next_geometry_index;
    }
    return bad;
}

void check(mc::Ctx& x, const Input& in, ww::KnuthWrapper& wrapper)
{
    std::vector<std::size_t> b = { 7, 7, 7 };
    x.eval();
    x.step();
    ww::greedy(in.words, in.trailing, in.geom, b, in.first);
    check_breaks(x, in, b, true);
    std::vector<std::vector<std::pair<bool, u128>>> memo(in.words.size() + 1, std::vector<std::pair<bool, u128>>(in.geom.size()));
    u128 best = in.words.empty() ? 0 : ref_best(in, 0, in.first, memo);
    std::vector<std::size_t> b2 = { 9, 9 };
    bool thrown = false;
    try { wrapper.wrap(in.words, in.trailing, in.geom, b2, in.first); } catch (std::overflow_error&) { thrown = true; }
    MC_CHECK(x, thrown == (best > ~std::uint64_t(0)), "overflow reported ", thrown, " for ", describe(in));
    if (thrown) return;
    u128 bad = check_breaks(x, in, b2, false);
    MC_CHECK(x, bad == best, "badness ", std::uint64_t(bad), " but ", std::uint64_t(best), " is possible for ", describe(in));
    MC_CHECK(x, wrapper.get_badness() == std::uint64_t(best), "get_badness() ", wrapper.get_badness(), " for ", describe(in));
    x.outcome(mc::mix(b2.size(), std::uint64_t(best)));
}

std::vector<std::pair<std::vector<ww::Geometry>, std::size_t>> geometries(bool thorough)
{
    std::vector<std::pair<std::vector<ww::Geometry>, std::size_t>> r;
    for (std::size_t s = 0; s <= 8; ++s) r.push_back({ { { s, 0 } }, 0 });
    std::vector<std::size_t> sz = thorough ? std::vector<std::size_t> { 0, 1, 2, 3, 4, 5, 7 } : std::vector<std::size_t> { 0, 2, 3, 5 };
    for (auto a : sz)
        for (auto b : sz) {
            if (a == b) continue;
            r.push_back({ { { a, 1 }, { b, 1 } }, 0 });
            r.push_back({ { { a, 1 }, { b, 0 } }, 0 });
            if (thorough) r.push_back({ { { a, 1 }, { b, 0 } }, 1 });
            if (a < b) {
                r.push_back({ { { a, 2 }, { b, 0 }, { 4, 1 } }, 0 });
                r.push_back({ { { a, 0 }, { 1, 1 }, { b, 0 } }, 2 });
            }
        }
    return r;
}

void small(mc::Ctx& x)
{
    static const auto geoms = geometries(x.thorough);
    std::size_t g = std::size_t(x.choose(int(geoms.size())));
    int n = x.range(0, x.thorough ? 6 : 5);
    x.shard_point();
    static const std::size_t wsz[] = { 0, 1, 3 };
    Input in;
    in.geom = geoms[g].first;
    in.first = geoms[g].second;
    in.words.resize(std::size_t(n));
    ww::KnuthWrapper wrapper; // Used again and again
    int num = 1;
    for (int i = 0; i < n; ++i) num *= 9;
    for (int c = 0; c < num; ++c) {
        int k = c;
        for (auto& w : in.words) {
            w.space_size = std::size_t(k % 3);
            w.word_size = wsz[k / 3 % 3];
            k /= 9;
        }
        for (std::size_t t : { 0, 1, 3 }) {
            in.trailing = t;
            check(x, in, wrapper);
        }
    }
}
mc::Scenario s_small("small", 512, small);

// Longer texts, ordinary spaces
void longer(mc::Ctx& x)
{
    int n = x.range(6, x.thorough ? 10 : 8);
    std::size_t size = std::size_t(x.range(2, 12));
    int shape = x.choose(3);
    x.shard_point();
    Input in;
    in.first = 0;
    in.trailing = 0;
    if (shape == 0) in.geom = { { size, 0 } };
    else if (shape == 1) in.geom = { { size, 1 }, { size + 3, 1 } };
    else in.geom = { { size, 1 }, { size - 2, 2 }, { size + 1, 0 } };
    in.words.resize(std::size_t(n));
    ww::KnuthWrapper wrapper;
    static const std::size_t wsz[] = { 1, 2, 5 };
    int num = 1;
    for (int i = 0; i < n; ++i) num *= 3;
    for (int c = 0; c < num; ++c) {
        int k = c;
        bool first = true;
        for (auto& w : in.words) {
            w.space_size = first ? 0 : 1;
            w.word_size = wsz[k % 3];
            k /= 3;
            first = false;
        }
        check(x, in, wrapper);
    }
}
mc::Scenario s_longer("longer", 256, longer);

// Sizes at the limits of the types
void huge(mc::Ctx& x)
{
    const std::size_t m = ~std::size_t(0);
    static const std::size_t sz[] = { 0, 1, 0xFFFFFFFEu, 0xFFFFFFFFu, 0x100000000u, m / 2 + 1, m - 1, m };
    int n = x.range(0, 3);
    Input in;
    in.first = 0;
    in.geom = { { x.pick(sz), 1 }, { x.pick(sz), 1 } };
    x.shard_point();
    for (int i = 0; i < n; ++i) {
        std::size_t s = x.pick({ std::size_t(0), std::size_t(1), m });
        in.words.push_back({ s, x.pick(sz) });
    }
    in.trailing = x.pick({ std::size_t(0), std::size_t(1), m });
    if (n > 0) {
        // A single word together with the space that surrounds it must have a representable size
        u128 w = u128(in.words[0].space_size) + in.words[0].word_size;
        u128 w2 = u128(n == 1 ? in.words[0].space_size : 0) + in.words.back().word_size + in.trailing;
        if (w > m || w2 > m) x.prune();
    }
    ww::KnuthWrapper wrapper;
    check(x, in, wrapper);
    // and after some other use
    Input in2;
    in2.first = 0;
    in2.trailing = 0;
    in2.geom = { { 5, 0 } };
    in2.words = { { 0, 3 }, { 1, 2 }, { 1, 2 }, { 1, 5 } };
    check(x, in2, wrapper);
    check(x, in, wrapper);
}
mc::Scenario s_huge("huge", 64, huge);

} // namespace
