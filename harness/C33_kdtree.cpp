// C33: k-d tree construction and nearest point search against exhaustive search
#include "mc.hpp"
#include <iterator>
#include <array>
#include <vector>
#include <cmath>
#include <optional>
#include <algorithm>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/util/kdtree.hpp>

using namespace archon;

// The tree refers to points by index, so that the identity of every point can be followed
template<class F> struct Set { int k; std::vector<std::array<F, 3>> pts; };

template<class F> std::string show(const Set<F>& s)
{
    std::string r = "k=" + std::to_string(s.k) + " points";
    for (auto& p : s.pts) { r += " ("; for (int i = 0; i < s.k; ++i) r += (i ? "," : "") + mc::str(p[i]); r += ")"; }
    return r;
}

// queries on a grid of halves that extends beyond the points; all quantities exactly representable
template<class F> void check(mc::Ctx& x, const Set<F>& s, int grid, int step, bool all_limits)
{
    int k = s.k, n = int(s.pts.size());
    auto get = [&](const int& id, int dim) -> F { return s.pts[id][dim]; };
    std::vector<int> ids(n);
    for (int i = 0; i < n; ++i) ids[i] = i;
    x.eval();
    util::kdtree_sort(k, ids.begin(), ids.end(), get);
    { auto t = ids; std::sort(t.begin(), t.end()); for (int i = 0; i < n; ++i) MC_CHECK(x, t[i] == i, "tree is not a permutation of the points: ", show(s)); }
    mc::Ctx& y = x;
    int lo = -1, hi = 2 * grid + 1; // in halves
    std::array<int, 3> q{lo, lo, lo};
    for (;;) {
        std::array<F, 3> c{F(q[0]) / 2, F(q[1]) / 2, F(q[2]) / 2};
        F best = -1;
        for (auto& p : s.pts) { F d = 0; for (int i = 0; i < k; ++i) d += (p[i] - c[i]) * (p[i] - c[i]); if (best < 0 || d < best) best = d; }
        for (int lim = -1; lim <= (all_limits ? 2 * grid + 2 : 3); ++lim) {
            std::optional<F> max; if (lim >= 0) max = F(lim) / 2;
            bool expect = n > 0 && (!max || best < *max * *max);
            int point = -7; F dist = -7;
            y.eval();
            bool found = util::kdtree_find(k, ids.begin(), ids.end(), get, c.data(), max, point, dist);
            auto what = [&] { std::string r = show(s) + " query ("; for (int i = 0; i < k; ++i) r += (i ? "," : "") + mc::str(c[i]); return r + ") limit " + (max ? mc::str(*max) : std::string("none")); };
            MC_CHECK(x, found == expect, "search ", found ? "found a point" : "found nothing", ", exhaustive search says otherwise: ", what());
            if (found) {
                MC_CHECK(x, point >= 0 && point < n, "result is not one of the points: ", what());
                F d = 0; for (int i = 0; i < k; ++i) { F e = s.pts[point][i] - c[i]; d += e * e; }
                MC_CHECK(x, d == best, "point found has squared distance ", d, ", nearest has ", best, ": ", what());
                MC_CHECK(x, dist == std::sqrt(best), "distance reported ", dist, " is not the distance of the point, ", std::sqrt(best), ": ", what());
            }
            else MC_CHECK(x, point == -7 && dist == -7, "result arguments changed by failing search: ", what());
        }
        int i = 0;
        for (; i < k; ++i) { if ((q[i] += step) <= hi) break; q[i] = lo; }
        if (i == k) break;
    }
    x.state(mc::hash_str(show(s)));
}

template<class F> void sequences(mc::Ctx& x, int k, int grid, int maxn)
{
    int m = 1; for (int i = 0; i < k; ++i) m *= grid;
    Set<F> s; s.k = k;
    int n = x.choose(maxn + 1);
    for (int i = 0; i < n; ++i) {
        int v = x.choose(m);
        std::array<F, 3> p{};
        for (int j = 0; j < k; ++j) { p[j] = F(v % grid); v /= grid; }
        s.pts.push_back(p);
        if (i == 1) x.shard_point();
    }
    if (n < 2) x.shard_point();
    check(x, s, grid - 1, 1, n <= 4);
}

static mc::Scenario s1("all-sequences-of-points-on-a-line", 8, [](mc::Ctx& x) { sequences<double>(x, 1, 3, x.thorough ? 9 : 7); });
static mc::Scenario s2("all-sequences-of-points-in-the-plane", 8, [](mc::Ctx& x) { sequences<double>(x, 2, 3, x.thorough ? 6 : 4); });
static mc::Scenario s2b("all-sequences-of-points-in-the-plane-small-grid", 8, [](mc::Ctx& x) { sequences<float>(x, 2, 2, x.thorough ? 9 : 7); });
static mc::Scenario s3("all-sequences-of-points-in-space", 8, [](mc::Ctx& x) { sequences<double>(x, 3, 2, x.thorough ? 6 : 4); });

// every subset of a 4 by 4 (3 by 3 by 2) grid, in ascending or scattered order, some points present twice
static mc::Scenario s4("all-subsets-of-a-grid", 8, [](mc::Ctx& x) {
    int k = x.pick({2, 3});
    int order = x.choose(3);
    int w = k == 2 ? 4 : 3, cells = k == 2 ? 16 : (x.thorough ? 18 : 12);
    unsigned mask = 0;
    for (int i = 0; i < cells; ++i) { if (x.choose(2)) mask |= 1u << i; if (i == 3) x.shard_point(); }
    Set<double> s; s.k = k;
    auto add = [&](int i) { s.pts.push_back({double(i % w), double(i / w % w), k == 3 ? double(i / (w * w)) : 0.0}); };
    for (int i = 0; i < cells; ++i) {
        int j = order == 0 ? i : (i * 7 + 3) % cells; // 7 is coprime to the number of cells
        if (mask >> j & 1) { add(j); if (order == 2 && j % 3 == 0) add(j); }
    }
    check(x, s, w - 1, x.thorough ? 1 : 2, false);
});

// larger trees of every size: every position of every size is found
static mc::Scenario s5("trees-of-all-sizes", 8, [](mc::Ctx& x) {
    int k = 1 + x.choose(3), n = x.choose(x.thorough ? 300 : 80), pat = x.choose(4);
    x.shard_point();
    Set<double> s; s.k = k;
    std::uint64_t h = 5;
    for (int i = 0; i < n; ++i) {
        std::array<double, 3> p{};
        for (int j = 0; j < 3; ++j) {
            h = mc::mix(h, i * 3 + j);
            p[j] = pat == 0 ? double(i) : pat == 1 ? double(n - i) : pat == 2 ? double(h % 16) : double(h % 3 + (j == 0 ? i : 0));
        }
        s.pts.push_back(p);
    }
    auto get = [&](const int& id, int dim) { return s.pts[id][dim]; };
    std::vector<int> ids(n); for (int i = 0; i < n; ++i) ids[i] = i;
    util::kdtree_sort(k, ids.begin(), ids.end(), get);
    for (int i = 0; i < n; ++i) for (double off : {0.0, 0.25, -0.5, 1.0}) {
        double c[3]; for (int j = 0; j < 3; ++j) c[j] = s.pts[i][j] + off * (j + 1);
        double best = -1;
        for (auto& p : s.pts) { double d = 0; for (int j = 0; j < k; ++j) d += (p[j] - c[j]) * (p[j] - c[j]); if (best < 0 || d < best) best = d; }
        int point = -1; double dist = -1;
        x.eval();
        MC_CHECK(x, util::kdtree_find(k, ids.begin(), ids.end(), get, c, std::nullopt, point, dist), "nothing found");
        double d = 0; for (int j = 0; j < k; ++j) { double e = s.pts[point][j] - c[j]; d += e * e; }
        MC_CHECK(x, d == best && dist == std::sqrt(best), "size ", n, " k ", k, " pattern ", pat, " near point ", i, ": squared distance ", d, " instead of ", best);
    }
});
