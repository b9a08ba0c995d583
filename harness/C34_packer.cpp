// C34: rectangle packing: confinement, separation, completeness, number of bins, retries
#include "ints.hpp"
#include <map>
#include <cmath>
#include <optional>
#include <vector>
#include <algorithm>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/util/rectangle_packer.hpp>

using namespace archon;

template<class T> struct R { T w, h; };

template<class T> struct Problem {
    T spacing, margin;
    std::vector<R<T>> rects;
    T bw, bh;
    std::size_t max_bins;
    std::string show() const
    {
        std::string s = std::string(Name<T>::v) + " spacing " + istr(I(spacing)) + " margin " + istr(I(margin)) + " rectangles";
        for (auto& r : rects) s += " " + istr(I(r.w)) + "x" + istr(I(r.h));
        return s + " bin " + istr(I(bw)) + "x" + istr(I(bh)) + " max bins " + std::to_string(max_bins);
    }
};

// Check result of successful packing; returns number of bins
template<class T> std::size_t verify(mc::Ctx& x, const Problem<T>& p, const util::RectanglePacker<T>& packer)
{
    std::size_t n = packer.get_num_bins();
    MC_CHECK(x, n <= p.max_bins, "more bins than allowed: ", n, ": ", p.show());
    struct Q { I x, y, w, h; std::size_t bin; };
    std::vector<Q> qs;
    std::vector<I> ux(n, p.margin), uy(n, p.margin);
    std::vector<bool> used(n);
    for (std::size_t i = 0; i < p.rects.size(); ++i) {
        T rx = T(99), ry = T(99); std::size_t bin = 99;
        packer.get_rect_pos(i, bin, rx, ry);
        T rx2 = T(98), ry2 = T(98);
        packer.get_rect_pos(i, rx2, ry2);
        MC_CHECK(x, rx == rx2 && ry == ry2, "the two ways to get a position disagree");
        MC_CHECK(x, bin < n, "rectangle ", i, " in bin ", bin, " of ", n, ": ", p.show());
        Q q{I(rx), I(ry), I(p.rects[i].w), I(p.rects[i].h), bin};
        bool in = q.x >= I(p.margin) && q.y >= I(p.margin) && q.x + q.w + I(p.margin) <= I(p.bw) && q.y + q.h + I(p.margin) <= I(p.bh);
        MC_CHECK(x, in, "rectangle ", i, " at ", istr(q.x), ",", istr(q.y), " violates the margins of its bin: ", p.show());
        for (std::size_t j = 0; j < qs.size(); ++j) {
            const Q& r = qs[j];
            if (r.bin != bin) continue;
            I s = p.spacing;
            bool sep = q.x + q.w + s <= r.x || r.x + r.w + s <= q.x || q.y + q.h + s <= r.y || r.y + r.h + s <= q.y;
            MC_CHECK(x, sep, "rectangles ", j, " at ", istr(r.x), ",", istr(r.y), " and ", i, " at ", istr(q.x), ",", istr(q.y), " are too close: ", p.show());
        }
        qs.push_back(q);
        used[bin] = true;
        ux[bin] = std::max(ux[bin], q.x + q.w); uy[bin] = std::max(uy[bin], q.y + q.h);
    }
    for (std::size_t b = 0; b < n; ++b) {
        MC_CHECK(x, used[b], "bin ", b, " has no rectangle: ", p.show());
        MC_CHECK(x, I(packer.get_utilized_width(b)) == ux[b] + I(p.margin), "utilized width of bin ", b, " is ", istr(I(packer.get_utilized_width(b))), ": ", p.show());
        MC_CHECK(x, I(packer.get_utilized_height(b)) == uy[b] + I(p.margin), "utilized height of bin ", b, " is ", istr(I(packer.get_utilized_height(b))), ": ", p.show());
    }
    return n;
}

template<class T> bool fits_alone(const Problem<T>& p, const R<T>& r) { return I(r.w) + 2 * I(p.margin) <= I(p.bw) && I(r.h) + 2 * I(p.margin) <= I(p.bh); }

// Every maximum number of bins for one problem; each with a new packer, or all with one
template<class T> void solve(mc::Ctx& x, Problem<T> p, bool reuse)
{
    std::size_t n = p.rects.size();
    bool all_fit = std::all_of(p.rects.begin(), p.rects.end(), [&](auto& r) { return fits_alone(p, r); });
    bool margins = I(p.margin) * 2 <= I(p.bw) && I(p.margin) * 2 <= I(p.bh);
    std::optional<util::RectanglePacker<T>> packer;
    auto make = [&] { packer.emplace(p.spacing, p.margin); for (auto& r : p.rects) packer->add_rect(r.w, r.h); };
    make();
    auto pack = [&](std::size_t m) { x.eval(); p.max_bins = m; if (!reuse) make(); return packer->pack(p.bw, p.bh, m); };
    // with a bin for each rectangle, only rectangles too large for a bin can stand in the way
    bool ok = pack(n + 1);
    if (n > 0 || margins) MC_CHECK(x, ok == all_fit, "packing with a bin for every rectangle ", ok ? "succeeded" : "failed", ": ", p.show());
    std::size_t need = 0;
    if (ok) { need = verify(x, p, *packer); MC_CHECK(x, need <= n, "more bins than rectangles: ", p.show()); }
    for (std::size_t m = 0; m <= n; ++m) {
        bool ok_2 = pack(m);
        if (n == 0 && !margins) continue;
        // succeeds precisely if no more than the allowed number of bins are needed
        MC_CHECK(x, ok_2 == (all_fit && m >= need), "packing ", ok_2 ? "succeeded" : "failed", " although ", all_fit ? std::to_string(need) : std::string("impossible number of"), " bins are needed: ", p.show());
        if (ok_2) verify(x, p, *packer);
        x.outcome(mc::hash_str(ok_2 ? "packed" : "failed"));
    }
    // rectangles that can all stand side by side in a bin take one bin
    I row = 2 * I(p.margin); for (auto& r : p.rects) row += I(r.w) + I(p.spacing);
    if (n > 0 && all_fit && row - I(p.spacing) <= I(p.bw)) MC_CHECK(x, need == 1, "rectangles fit side by side in one bin but need ", need, ": ", p.show());
    // the suggested width is sufficient
    T sug = packer->suggest_bin_width();
    I wid = 0; for (auto& r : p.rects) wid = std::max(wid, I(r.w));
    I req = wid + 2 * I(p.margin);
    MC_CHECK(x, I(sug) >= std::min(req, I(core::int_max<T>())), "suggested width ", istr(I(sug)), " is too small for the widest rectangle: ", p.show());
    x.state(mc::hash_str(p.show()));
}

static mc::Scenario s1("all-lists-of-small-rectangles", 8, [](mc::Ctx& x) {
    Problem<int> p;
    p.spacing = x.choose(3); p.margin = x.choose(2);
    p.bw = 1 + x.choose(8); x.shard_point(); p.bh = x.choose(8);
    int n = x.choose(x.thorough ? 5 : 4);
    for (int i = 0; i < n; ++i) {
        if (i < 2) p.rects.push_back({x.choose(4), x.choose(4)});
        else { static const R<int> rs[] = {{1, 1}, {2, 1}, {1, 3}, {3, 2}, {0, 2}}; p.rects.push_back(rs[x.choose(5)]); }
    }
    solve(x, p, false);
});

static mc::Scenario s2("longer-lists-of-rectangles", 8, [](mc::Ctx& x) {
    static const R<int> rs[] = {{1, 1}, {2, 1}, {1, 3}, {3, 2}};
    Problem<int> p;
    p.spacing = x.choose(2); p.margin = x.choose(2); p.bw = x.pick({3, 4, 5, 7}); p.bh = x.pick({3, 5, 6});
    x.shard_point();
    int n = x.thorough ? 8 : 6;
    for (int i = 0; i < n; ++i) { int k = x.choose(5); if (k == 4) break; p.rects.push_back(rs[k]); }
    solve(x, p, x.thorough);
});

static mc::Scenario s3("one-packer-used-again-after-success-and-failure", 8, [](mc::Ctx& x) {
    Problem<int> p;
    p.spacing = x.choose(2); p.margin = x.choose(2);
    util::RectanglePacker<int> packer(p.spacing, p.margin);
    int n = x.thorough ? 6 : 5;
    for (int i = 0; i < n; ++i) {
        int op = x.choose(4);
        if (i == 1) x.shard_point();
        if (op == 0) { static const R<int> rs[] = {{1, 2}, {3, 1}, {2, 2}}; auto r = rs[x.choose(3)]; packer.add_rect(r.w, r.h); p.rects.push_back(r); MC_TRACE(x, "add_rect ", r.w, " ", r.h); }
        else if (op == 1) { packer.reset(); p.rects.clear(); MC_TRACE(x, "reset"); }
        else {
            p.bw = x.pick({1, 3, 4, 6}); p.bh = op == 2 ? 3 : std::numeric_limits<int>::max(); p.max_bins = op == 2 ? x.choose(4) : 1;
            MC_TRACE(x, "pack ", p.bw, " ", p.bh, " ", p.max_bins);
            x.eval();
            bool ok = op == 2 ? packer.pack(p.bw, p.bh, p.max_bins) : packer.pack(p.bw);
            // same as with a new packer
            util::RectanglePacker<int> fresh(p.spacing, p.margin);
            for (auto& r : p.rects) fresh.add_rect(r.w, r.h);
            bool ok_2 = fresh.pack(p.bw, p.bh, p.max_bins);
            MC_CHECK(x, ok == ok_2, "packing ", ok ? "succeeds" : "fails", " unlike with a new packer: ", p.show());
            if (ok) { std::size_t a = verify(x, p, packer), b = verify(x, p, fresh); MC_CHECK(x, a == b, "number of bins differs from that of a new packer: ", p.show()); }
            // without limit on height, only the width matters
            if (op == 3) { bool f = p.bw >= 2 * p.margin; for (auto& r : p.rects) f = f && fits_alone(p, r); if (!p.rects.empty()) MC_CHECK(x, ok == f, "packing into bin of unlimited height ", ok ? "succeeds" : "fails", ": ", p.show()); }
        }
    }
});

template<class T> void extremes(mc::Ctx& x)
{
    T m = core::int_max<T>();
    const std::vector<T> v{T(0), T(1), T(m / 2), T(m - 1), m};
    Problem<T> p;
    p.spacing = x.pick(std::vector<T>{T(0), T(1), T(m / 2), m}); p.margin = x.pick(std::vector<T>{T(0), T(1), T(m / 2), T(m / 2 + 1), m});
    p.bw = x.pick(v); p.bh = x.pick(v);
    x.shard_point();
    int n = x.choose(4);
    for (int i = 0; i < n; ++i) { T w = x.pick(std::vector<T>{T(0), T(1), T(m / 2), m}), h = x.pick(std::vector<T>{T(1), T(m / 2), m}); p.rects.push_back({w, h}); }
    if (n == 3 && x.thorough) { int k = x.choose(3); for (int i = 0; i < 2 * k; ++i) p.rects.push_back(p.rects[i]); }
    solve(x, p, true);
}
static mc::Scenario s4("extreme-sizes-int", 8, [](mc::Ctx& x) { extremes<int>(x); });
static mc::Scenario s5("extreme-sizes-unsigned", 8, [](mc::Ctx& x) { extremes<unsigned>(x); });
static mc::Scenario s6("extreme-sizes-long-long", 8, [](mc::Ctx& x) { extremes<long long>(x); });
static mc::Scenario s7("extreme-sizes-short", 8, [](mc::Ctx& x) { extremes<short>(x); });

template<class T> void suggest(mc::Ctx& x)
{
    T m = core::int_max<T>();
    T spacing = x.pick(std::vector<T>{T(0), T(1), T(7), m}), margin = x.pick(std::vector<T>{T(0), T(1), T(m / 2), m});
    util::RectanglePacker<T> packer(spacing, margin);
    int n = x.choose(12); T w = x.pick(std::vector<T>{T(0), T(1), T(5), T(m / 2), m}), h = x.pick(std::vector<T>{T(0), T(1), T(5), T(m / 2), m});
    for (int i = 0; i < n; ++i) packer.add_rect(w, h);
    x.eval();
    T sug = packer.suggest_bin_width();
    I req = std::min((n > 0 ? I(w) : 0) + 2 * I(margin), I(m));
    MC_CHECK(x, I(sug) >= req, Name<T>::v, ": suggested width ", istr(I(sug)), " for ", n, " rectangles ", istr(I(w)), "x", istr(I(h)), " spacing ", istr(I(spacing)), " margin ", istr(I(margin)));
    I total_h = 2 * I(margin) + n * (I(h) + I(spacing));
    if (n > 0 && (I(w) + 2 * I(margin) <= I(m)) && total_h <= I(m)) { x.eval(); MC_CHECK(x, packer.pack(sug), Name<T>::v, ": packing fails at suggested width"); }
}
static mc::Scenario s8("suggested-widths", 1, [](mc::Ctx& x) {
    switch (x.choose(4)) { case 0: suggest<int>(x); break; case 1: suggest<unsigned>(x); break; case 2: suggest<long long>(x); break; case 3: suggest<short>(x); break; }
});
