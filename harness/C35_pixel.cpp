// C35: pixel positions, sizes and boxes against exact integer sets
#include "ints.hpp"
#include <sstream>
#include <vector>
#include <climits>
#include <optional>
#include <algorithm>
#include <string_view>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/integer.hpp>
#include <archon/core/format.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/util/pixel_size.hpp>
#include <archon/util/pixel_pos.hpp>
#include <archon/util/pixel_box.hpp>

using namespace archon;
namespace px = util::pixel;

// Half-open interval of pixel coordinates
struct Iv { int p, n; I b() const { return p; } I e() const { return I(p) + n; } };

const std::vector<Iv>& intervals(bool thorough)
{
    static std::vector<Iv> v[2];
    if (v[thorough].empty()) {
        std::vector<int> ps{INT_MIN, INT_MIN + 1, INT_MIN + 2, -2, -1, 0, 1, 2, INT_MAX - 2, INT_MAX - 1, INT_MAX};
        if (thorough) { ps.push_back(INT_MIN / 2); ps.push_back(INT_MAX / 2); ps.push_back(3); }
        std::vector<int> ns{0, 1, 2, 3, INT_MAX - 1, INT_MAX};
        if (thorough) { ns.push_back(INT_MAX / 2); ns.push_back(INT_MAX / 2 + 1); ns.push_back(4); }
        for (int p : ps) for (int n : ns) if (I(p) + n <= INT_MAX) v[thorough].push_back({p, n});
    }
    return v[thorough];
}
std::string show(Iv a, Iv b) { return "x " + std::to_string(a.p) + "+" + std::to_string(a.n) + " y " + std::to_string(b.p) + "+" + std::to_string(b.n); }

bool meet(Iv a, Iv b) { return std::max(a.b(), b.b()) < std::min(a.e(), b.e()); }
bool within(Iv a, Iv b) { return a.b() <= b.b() && b.e() <= a.e(); } // b within a

static mc::Scenario s1("box-algebra", 8, [](mc::Ctx& x) {
    auto& v = intervals(x.thorough);
    Iv ax = x.pick(v), bx = x.pick(v);
    x.shard_point();
    for (Iv ay : v) for (Iv by : v) {
        px::Box a({ax.p, ay.p}, {ax.n, ay.n}), b({bx.p, by.p}, {bx.n, by.n});
        auto what = [&] { return show(ax, ay) + " and " + show(bx, by); };
        x.eval();
        bool i = meet(ax, bx) && meet(ay, by), c = within(ax, bx) && within(ay, by);
        MC_CHECK(x, a.intersects(b) == i, "intersects: ", what());
        MC_CHECK(x, a.contains(b) == c, "contains: ", what());
        MC_CHECK(x, b.contained_in(a) == c, "contained in: ", what());
        px::Box d = b;
        bool r = a.clip(d);
        MC_CHECK(x, r == i, "clip result: ", what());
        if (!i) MC_CHECK(x, d.pos.x == bx.p && d.pos.y == by.p && d.size.width == bx.n && d.size.height == by.n, "failing clip changed the box: ", what());
        else {
            I x0 = std::max(ax.b(), bx.b()), x1 = std::min(ax.e(), bx.e()), y0 = std::max(ay.b(), by.b()), y1 = std::min(ay.e(), by.e());
            MC_CHECK(x, I(d.pos.x) == x0 && I(d.pos.y) == y0 && I(d.size.width) == x1 - x0 && I(d.size.height) == y1 - y0, "clipped box is not the intersection: ", what(), ": got ",
                     show({d.pos.x, d.size.width}, {d.pos.y, d.size.height}));
        }
    }
    x.state(mc::mix(mc::mix(ax.p, ax.n), mc::mix(bx.p, bx.n)));
});

static mc::Scenario s2("pixels-of-small-boxes", 8, [](mc::Ctx& x) {
    // both boxes and the pixels enumerated one by one
    px::Box a({x.range(-2, 2), x.range(-2, 2)}, {x.choose(4), x.choose(4)});
    x.shard_point();
    px::Box b({x.range(-2, 2), x.range(-2, 2)}, {x.choose(4), x.choose(4)});
    auto in = [](const px::Box& c, int i, int j) { return i >= c.pos.x && i - c.pos.x < c.size.width && j >= c.pos.y && j - c.pos.y < c.size.height; };
    px::Box c = b; bool r = a.clip(c); x.eval();
    bool any = false, all = true, any_b = false;
    for (int i = -3; i < 7; ++i) for (int j = -3; j < 7; ++j) {
        bool p = in(a, i, j), q = in(b, i, j);
        MC_CHECK(x, a.contains_pixel_at({i, j}) == p, "contains pixel ", i, ",", j);
        if (p && q) any = true;
        if (q && !p) all = false;
        if (q) any_b = true;
        if (r) MC_CHECK(x, in(c, i, j) == (p && q), "pixel ", i, ",", j, " of clipped box");
    }
    MC_CHECK(x, r == any && a.intersects(b) == any && b.intersects(a) == any, "intersection");
    MC_CHECK(x, b.is_empty() == !any_b && b.is_valid(), "empty");
    if (any_b) MC_CHECK(x, a.contains(b) == all, "containment");
    std::array<int, 4> ka{a.pos.x, a.pos.y, a.size.width, a.size.height}, kb{b.pos.x, b.pos.y, b.size.width, b.size.height};
    MC_CHECK(x, (a == b) == (ka == kb) && (a != b) == (ka != kb) && (a < b) == (ka < kb) && (a <= b) == (ka <= kb) && (a > b) == (ka > kb) && (a >= b) == (ka >= kb), "comparison");
    px::Box s = splice(a, b);
    MC_CHECK(x, s.pos.x == a.pos.x && s.pos.y == b.pos.y && s.size.width == a.size.width && s.size.height == b.size.height, "splice");
});

static const std::vector<int> E{INT_MIN, INT_MIN + 1, INT_MIN / 2, -3, -2, -1, 0, 1, 2, 3, INT_MAX / 2, INT_MAX / 2 + 1, INT_MAX - 1, INT_MAX};
bool is_int(I v) { return v >= INT_MIN && v <= INT_MAX; }
I floor_div(I a, I b) { I q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) --q; return q; }

static mc::Scenario s3("position-and-size-arithmetic", 8, [](mc::Ctx& x) {
    int a = x.pick(E), b = x.pick(E);
    x.shard_point();
    for (int c : E) for (int d : E) {
        x.eval();
        auto what = [&] { return std::to_string(a) + "," + std::to_string(b) + " and " + std::to_string(c) + "," + std::to_string(d); };
        px::Pos p(a, b), q(c, d); px::Size s(a, b), t(c, d);
        bool add = is_int(I(a) + c) && is_int(I(b) + d), sub = is_int(I(a) - c) && is_int(I(b) - d);
        MC_CHECK(x, p.can_add(t) == add, "can_add: ", what());
        MC_CHECK(x, p.can_sub(t) == sub, "can_sub: ", what());
        auto eqp = [](px::Pos u, I m, I n) { return I(u.x) == m && I(u.y) == n; };
        auto eqs = [](px::Size u, I m, I n) { return I(u.width) == m && I(u.height) == n; };
        if (add) {
            px::Pos u = p; u += t; px::Size w = s; w += t;
            MC_CHECK(x, eqp(p + t, I(a) + c, I(b) + d) && eqp(u, I(a) + c, I(b) + d) && eqs(s + t, I(a) + c, I(b) + d) && eqs(w, I(a) + c, I(b) + d), "sum: ", what());
        }
        if (sub) {
            px::Pos u = p; u -= t; px::Size w = s; w -= t;
            MC_CHECK(x, eqp(p - t, I(a) - c, I(b) - d) && eqp(u, I(a) - c, I(b) - d) && eqs(s - t, I(a) - c, I(b) - d) && eqs(w, I(a) - c, I(b) - d) && eqs(p - q, I(a) - c, I(b) - d), "difference: ", what());
        }
        px::Box box(p, t);
        MC_CHECK(x, box.is_valid() == (c >= 0 && d >= 0 && add), "box valid: ", what());
        MC_CHECK(x, t.is_valid() == (c >= 0 && d >= 0) && t.is_zero() == (c == 0 && d == 0) && t.is_empty() == (c == 0 || d == 0) && q.is_zero() == (c == 0 && d == 0), "size predicates: ", what());
        MC_CHECK(x, s.contains(t) == (a >= c && b >= d) && s.contained_in(t) == (a <= c && b <= d), "size containment: ", what());
        MC_CHECK(x, eqs(min(s, t), std::min(a, c), std::min(b, d)) && eqs(max(s, t), std::max(a, c), std::max(b, d)), "min or max: ", what());
        MC_CHECK(x, eqs(splice(s, t), a, d) && eqp(splice(p, q), a, d), "splice: ", what());
        MC_CHECK(x, eqp(p.proj_x(), a, 0) && eqp(p.proj_y(), 0, b) && eqs(s.proj_x(), a, 0) && eqs(s.proj_y(), 0, b), "projection: ", what());
        MC_CHECK(x, eqp(p.with_x(c), c, b) && eqp(p.with_y(d), a, d) && eqs(s.with_width(c), c, b) && eqs(s.with_height(d), a, d), "replaced component: ", what());
        auto k = std::pair(a, b), l = std::pair(c, d);
        MC_CHECK(x, (p == q) == (k == l) && (p != q) == (k != l) && (p < q) == (k < l) && (p <= q) == (k <= l) && (p > q) == (k > l) && (p >= q) == (k >= l), "position order: ", what());
        MC_CHECK(x, (s == t) == (k == l) && (s != t) == (k != l) && (s < t) == (k < l) && (s <= t) == (k <= l) && (s > t) == (k > l) && (s >= t) == (k >= l), "size order: ", what());
        if (c != 0) {
            if (is_int(I(a) * c) && is_int(I(b) * c)) MC_CHECK(x, eqs(s * c, I(a) * c, I(b) * c) && eqs(c * s, I(a) * c, I(b) * c), "scaling: ", what());
            if (is_int(floor_div(a, c)) && is_int(floor_div(b, c)))
                MC_CHECK(x, eqs(s / c, floor_div(a, c), floor_div(b, c)), "division of size ", a, ",", b, " by ", c, " gives ", (s / c).width, ",", (s / c).height, " which is not the result rounded down");
        }
    }
});

template<class C> std::basic_string<C> widen(std::string_view s) { return {s.begin(), s.end()}; }
template<class C> std::string narrow(std::basic_string_view<C> s) { return {s.begin(), s.end()}; }
template<class C, class V> std::string fmt(V v) { std::basic_ostringstream<C> o; o.imbue(std::locale::classic()); o << v; return narrow<C>(o.view()); }

template<class C> void text(mc::Ctx& x)
{
    int a = x.pick(E), b = x.pick(E);
    std::string sa = std::to_string(a), sb = std::to_string(b);
    x.eval();
    px::Pos p(a, b); px::Size s(a, b);
    std::string ps = sa + "," + sb, ss = a == b ? sa : ps;
    MC_CHECK(x, (fmt<C, px::Pos>(p)) == ps, "position formatted as ", fmt<C, px::Pos>(p));
    MC_CHECK(x, (fmt<C, px::Size>(s)) == ss, "size formatted as ", fmt<C, px::Size>(s));
    MC_CHECK(x, (fmt<C, px::Box>(px::Box(p, s))) == ps + ";" + ss, "box formatted as ", fmt<C, px::Box>(px::Box(p, s)));
    core::BasicValueParser<C> parser(std::locale::classic());
    for (std::string sep : {",", ", ", ",  "}) {
        px::Pos p2(7, 7); px::Size s2(7, 7);
        auto t = widen<C>(sa + sep + sb);
        MC_CHECK(x, parser.parse(t, p2) && p2 == p, "position text ", sa, sep, sb, " not parsed");
        MC_CHECK(x, parser.parse(t, s2) && s2 == s, "size text ", sa, sep, sb, " not parsed");
    }
    px::Size s2(7, 7); px::Pos p2(7, 7);
    MC_CHECK(x, parser.parse(widen<C>(sa), s2) && s2 == px::Size(a, a), "size text ", sa, " not parsed");
    MC_CHECK(x, !parser.parse(widen<C>(sa), p2) && p2 == px::Pos(7, 7), "position of one component accepted");
    for (std::string bad : {sa + "," + sb + "," + sb, sa + ",", "," + sa, sa + ";" + sb, sa + " " + sb, std::string(), "x," + sb, sa + ",2147483648", "-2147483649," + sb}) {
        px::Pos p3(7, 7); px::Size s3(7, 7);
        auto t = widen<C>(bad);
        MC_CHECK(x, !parser.parse(t, p3), "bad position text accepted: ", bad); MC_CHECK(x, p3 == px::Pos(7, 7), "position changed by bad text: ", bad);
        MC_CHECK(x, !parser.parse(t, s3), "bad size text accepted: ", bad); MC_CHECK(x, s3 == px::Size(7, 7), "size changed by bad text: ", bad);
    }
}
static mc::Scenario s4("text", 1, [](mc::Ctx& x) { if (x.choose(2)) text<wchar_t>(x); else text<char>(x); });
